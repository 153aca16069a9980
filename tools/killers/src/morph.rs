use crate::Rng;
use serde_json::Value;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    N(usize),
    Ch(Vec<u8>),
    S(Vec<E>),
    Alt(Vec<E>),
    Long(Vec<E>),
    R(Box<E>),
    No(Box<E>),
    Pk(Box<E>),
    Eof,
    Fail,
}
use E::*;

fn load(v: &Value, ids: &HashMap<String, usize>) -> E {
    let b = |k: usize| Box::new(load(&v[k], ids));
    let l = |k: usize| v[k].as_array().unwrap().iter().map(|x| load(x, ids)).collect();
    match v[0].as_str().unwrap() {
        "n" => N(ids[v[1].as_str().unwrap()]),
        "ch" => Ch(v[1].as_array().unwrap().iter().map(|x| x.as_str().unwrap().as_bytes()[0]).collect()),
        "s" => S(l(1)),
        "alt" => Alt(l(1)),
        "long" => Long(l(1)),
        "r" => R(b(1)),
        "no" => No(b(1)),
        "pk" => Pk(b(1)),
        "eof" => Eof,
        x => panic!("{x}"),
    }
}

/// mutants of an expression (whole expressions)
fn mutants(e: &E, fam: &dyn Fn(usize) -> Vec<usize>) -> Vec<E> {
    let mut out = vec![];
    match e {
        N(r) => {
            for f in fam(*r) {
                out.push(N(f));
            }
        }
        Ch(cs) => {
            for k in 0..cs.len() {
                let mut c = cs.clone();
                c.remove(k);
                out.push(Ch(c));
            }
        }
        S(v) => {
            for k in 0..v.len() {
                let mut w = v.clone();
                w.remove(k);
                out.push(S(w));
                if k + 1 < v.len() {
                    let mut w = v.clone();
                    w.swap(k, k + 1);
                    out.push(S(w));
                }
                if !matches!(v[k], No(_) | Pk(_) | Eof) {
                    let mut w = v.clone();
                    w[k] = Alt(vec![v[k].clone(), S(vec![])]);
                    out.push(S(w));
                }
                for m in mutants(&v[k], fam) {
                    let mut w = v.clone();
                    w[k] = m;
                    out.push(S(w));
                }
            }
        }
        Alt(v) | Long(v) => {
            let long = matches!(e, Long(_));
            let mk = |w: Vec<E>| if long { Long(w) } else { Alt(w) };
            if long {
                out.push(Alt(v.clone()));
            } else if v.len() > 1 && v[v.len() - 1] != S(vec![]) {
                out.push(Long(v.clone()));
            }
            for k in 0..v.len() {
                let mut w = v.clone();
                w.remove(k);
                out.push(if w.is_empty() { Fail } else { mk(w) });
                if k + 1 < v.len() {
                    let mut w = v.clone();
                    w.swap(k, k + 1);
                    if v[k + 1] != S(vec![]) {
                        out.push(mk(w));
                    }
                }
                for m in mutants(&v[k], fam) {
                    let mut w = v.clone();
                    w[k] = m;
                    out.push(mk(w));
                }
            }
        }
        R(x) => {
            out.push(S(vec![]));
            out.push(Alt(vec![(**x).clone(), S(vec![])]));
            let once = Alt(vec![(**x).clone(), S(vec![])]);
            out.push(S(vec![once.clone(), once]));
            out.push(S(vec![(**x).clone(), R(x.clone())]));
            out.extend(mutants(x, fam).into_iter().map(|m| R(Box::new(m))));
        }
        No(x) => {
            out.push(Pk(x.clone()));
            out.extend(mutants(x, fam).into_iter().map(|m| No(Box::new(m))));
        }
        Pk(x) => {
            out.push(No(x.clone()));
            out.extend(mutants(x, fam).into_iter().map(|m| Pk(Box::new(m))));
        }
        Eof => {}
        Fail => {}
    }
    out
}

pub struct M<'a> {
    rules: &'a [E],
    over: Option<(usize, &'a E)>,
    cs: &'a [u8],
    memo: Vec<i32>,
    calls: usize,
}
const INPROG: i32 = -2;
impl M<'_> {
    fn rule(&mut self, r: usize, i: usize) -> i32 {
        let slot = r * (self.cs.len() + 2) + i;
        let m = self.memo[slot];
        if m == INPROG {
            return -1;
        }
        if m != -3 {
            return m;
        }
        self.memo[slot] = INPROG;
        let rules = self.rules;
        let e: *const E = match self.over {
            Some((k, e)) if k == r => e,
            _ => &rules[r],
        };
        self.calls += 1;
        let v = self.go(unsafe { &*e }, i);
        self.memo[slot] = v;
        v
    }
    fn go(&mut self, e: &E, i: usize) -> i32 {
        match e {
            N(r) => self.rule(*r, i),
            Ch(s) => {
                if i < self.cs.len() && s.contains(&self.cs[i]) {
                    i as i32 + 1
                } else {
                    -1
                }
            }
            S(v) => {
                let mut p = i as i32;
                for x in v {
                    p = self.go(x, p as usize);
                    if p < 0 {
                        return -1;
                    }
                }
                p
            }
            Alt(v) => {
                for x in v {
                    let p = self.go(x, i);
                    if p >= 0 {
                        return p;
                    }
                }
                -1
            }
            Long(v) => v.iter().map(|x| self.go(x, i)).max().unwrap(),
            R(x) => {
                let mut p = i;
                loop {
                    let q = self.go(x, p);
                    if q < 0 || q as usize == p {
                        return p as i32;
                    }
                    p = q as usize;
                }
            }
            No(x) => {
                if self.go(x, i) < 0 {
                    i as i32
                } else {
                    -1
                }
            }
            Pk(x) => {
                if self.go(x, i) < 0 {
                    -1
                } else {
                    i as i32
                }
            }
            Eof => {
                if i == self.cs.len() {
                    i as i32
                } else {
                    -1
                }
            }
            Fail => -1,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Default)]
pub struct Top(u8); // 0: as specified; others: mutants of ChunkWords / FormClass
const TOPS: u8 = 12;

struct Ctx {
    rules: Vec<E>,
    id: HashMap<String, usize>,
    lex: HashSet<String>,
}

fn machine<'a>(c: &'a Ctx, over: Option<(usize, &'a E)>, cs: &'a [u8]) -> M<'a> {
    M { rules: &c.rules, over, cs, memo: vec![-3; c.rules.len() * (cs.len() + 2)], calls: 0 }
}

/// words with classes
fn words(c: &Ctx, over: Option<(usize, &E)>, top: Top, s: &[u8]) -> Vec<(usize, usize, u8)> {
    let n = s.len();
    let mut m = machine(c, over, s);
    let id = |x: &str| c.id[x];
    let mut out = vec![];
    let cons = b"bcdfgjklmnprstvxzBCDFGJKLMNPRSTVXZ".contains(&s[n - 1]) && top.0 != 1;
    if cons {
        out.push((0, n));
    } else {
        let mut f = vec![0usize];
        let (bare, expl) = (id("bare_cmavo"), id("explicit_brivla"));
        loop {
            let i = *f.last().unwrap();
            let mut r = m.rule(bare, i);
            if top.0 == 2 {
                r = m.rule(expl, i);
                if r < 0 {
                    r = m.rule(bare, i);
                }
            } else if r < 0 && top.0 != 3 {
                r = m.rule(expl, i);
            }
            if r < 0 || r as usize == i {
                break;
            }
            f.push(r as usize);
        }
        let last = *f.last().unwrap();
        let mut starts = false;
        if m.rule(id("nucleus"), last) < 0 || top.0 == 4 {
            for (k, r) in ["gismu", "fuhivla", "lujvo", "bare_cmavo"].iter().enumerate() {
                if top.0 as usize != 5 + k && m.rule(id(r), last) >= 0 {
                    starts = true;
                }
            }
        }
        if top.0 == 9 {
            starts = true;
        }
        if f.len() > 1 && !starts {
            f.pop();
        }
        if top.0 == 10 && f.len() > 1 && !starts {
            f.pop();
        }
        for k in 0..f.len() {
            let e = if k + 1 < f.len() { f[k + 1] } else { n };
            if f[k] < e {
                out.push((f[k], e));
            }
        }
    }
    out.into_iter()
        .map(|(a, b)| {
            let w: String = s[a..b].iter().map(|&c| if c == b'h' { '\'' } else { c as char }).collect();
            let cl = if c.lex.contains(&w) {
                9
            } else if w.bytes().all(|c| c == b'y') {
                8
            } else {
                let mut m = machine(c, over, &s[a..b]);
                let n = (b - a) as i32;
                let order: &[&str] = if top.0 == 11 { &["cmevla", "bare_cmavo", "fuhivla", "gismu", "lujvo"] } else { &["cmevla", "bare_cmavo", "gismu", "fuhivla", "lujvo"] };
                let mut r = 0;
                for x in order {
                    if m.rule(id(x), 0) == n {
                        r = match *x { "cmevla" => 1, "bare_cmavo" => 2, "gismu" => 3, "fuhivla" => 4, _ => 5 };
                        break;
                    }
                }
                r
            };
            (a, b, cl)
        })
        .collect()
}

fn derive(c: &Ctx, over: Option<(usize, &E)>, e: &E, d: usize, r: &mut Rng, out: &mut Vec<u8>) {
    if out.len() > 40 || d > 200 {
        return;
    }
    match e {
        N(k) => {
            let x = match over {
                Some((q, e)) if q == *k => e,
                _ => &c.rules[*k],
            };
            derive(c, over, x, d + 1, r, out)
        }
        Ch(s) => {
            if !s.is_empty() {
                let mut ch = *r.pick(s);
                if s.len() > 2 || !r.chance(0.9) {
                } else if ch.is_ascii_uppercase() && s.len() == 2 {
                    ch = ch.to_ascii_lowercase()
                }
                out.push(ch)
            }
        }
        S(v) => v.iter().for_each(|x| derive(c, over, x, d, r, out)),
        Alt(v) | Long(v) => {
            let x = if d > 60 { &v[v.len() - 1] } else { r.pick(v) };
            derive(c, over, x, d, r, out)
        }
        R(x) => {
            let n = if d > 30 { 0 } else { *r.pick(&[0, 0, 1, 1, 2]) };
            for _ in 0..n {
                derive(c, over, x, d, r, out)
            }
        }
        _ => {}
    }
}
const FRONT: &[&str] = &["", "", "", "lo", "mi", "a", "ba", "y", "to'e", "bla", "cmA", "i", "'", "sai", "s", "ta", "tar", "bA", "tavle'", "pagy", "ia", "da'a"];
const BACK: &[&str] = &["", "", "", "mi", "cu", "pre", "a", "bau", "'i", "s", "y", "blada", "gismu", "n", "ba", "'y", "yba", "la'a", "kla", "rA", "klama", "r", "bAga", "ia"];

fn candidate(c: &Ctx, rule: usize, over: Option<(usize, &E)>, users: &[Vec<usize>], words: &[String], r: &mut Rng) -> Vec<u8> {
    let mut out = vec![];
    let k = r.below(10);
    if k < 2 && !words.is_empty() {
        out.extend(r.pick(words).bytes());
    } else if k < 3 {
        let n = 1 + r.below(8);
        for _ in 0..n {
            out.push(*r.pick(b"bcdfgjklmnprstvxzaeiouaeiouaeiouaeiouyy''AEIOUhi"));
        }
    } else {
        out.extend(r.pick(FRONT).bytes());
        let mut q = rule;
        // climb towards users of the rule
        for _ in 0..r.below(4) {
            if !users[q].is_empty() {
                q = *r.pick(&users[q]);
            }
        }
        derive(c, over, &N(q), 0, r, &mut out);
        if r.chance(0.5) {
            // lower most capitals
            let n = out.len();
            for k in 0..n {
                if r.chance(0.9) {
                    out[k] = out[k].to_ascii_lowercase()
                }
            }
        }
        if r.chance(0.5) {
            derive(c, over, &N(r.below(c.rules.len())), 30, r, &mut out);
        }
        out.extend(r.pick(BACK).bytes());
    }
    if r.chance(0.25) && !out.is_empty() {
        for _ in 0..1 + r.below(2) {
            if out.is_empty() { break }
            let k = r.below(out.len());
            match r.below(4) {
                0 => { out.remove(k); }
                1 => out.insert(k, *r.pick(b"bcdfgjklmnprstvxzaeiouaeiouy''")),
                2 => out[k] = out[k].to_ascii_uppercase(),
                _ => out[k] = *r.pick(b"bcdfgjklmnprstvxzaeiouaeiouy''"),
            }
        }
    }
    out.truncate(22);
    out
}

fn calls_of(e: &E, out: &mut Vec<usize>) {
    match e {
        N(r) => out.push(*r),
        S(v) | Alt(v) | Long(v) => v.iter().for_each(|x| calls_of(x, out)),
        R(x) | No(x) | Pk(x) => calls_of(x, out),
        _ => {}
    }
}

pub fn main(v: &Value, args: &[String]) {
    let tries: usize = args[1].parse().unwrap();
    let obj = v["morphology"].as_object().unwrap();
    let mut names: Vec<String> = obj.keys().cloned().collect();
    names.sort();
    let id: HashMap<String, usize> = names.iter().enumerate().map(|(k, n)| (n.clone(), k)).collect();
    let rules: Vec<E> = names.iter().map(|n| load(&obj[n], &id)).collect();
    let lex = v["lexicon"].as_array().unwrap().iter().flat_map(|x| x[1].as_array().unwrap().iter().chain(x[2].as_array().unwrap())).map(|x| x.as_str().unwrap().to_string()).collect();
    let ctx = Ctx { rules, id, lex };
    let wordlist: Vec<String> = std::fs::read_to_string(&args[2]).unwrap().lines().filter(|l| l.is_ascii() && l.len() < 16 && !l.is_empty()).map(String::from).collect();
    let mut users = vec![vec![]; names.len()];
    for (k, e) in ctx.rules.iter().enumerate() {
        let mut u = vec![];
        calls_of(e, &mut u);
        for x in u {
            if !users[x].contains(&k) {
                users[x].push(k)
            }
        }
    }
    // families of similar rules
    let fams: Vec<Vec<&str>> = vec![
        vec!["vowel", "stressed_vowel", "unstressed_vowel", "explicit_vowel", "nucleus"],
        vec!["diphthong", "stressed_diphthong", "unstressed_diphthong", "explicit_diphthong"],
        vec!["syllable", "any_syllable", "stressed_syllable", "unstressed_syllable", "explicit_syllable"],
        vec!["initial_pair", "cluster"],
        vec!["final_syllable", "final_syllable_minimal"],
        vec!["cmavo", "bare_cmavo", "cmavo_form"],
        vec!["y_rafsi", "stressed_y_rafsi", "explicit_y_rafsi", "hy_rafsi", "stressed_hy_rafsi"],
        vec!["cvc_rafsi", "stressed_cvc_rafsi", "explicit_cvc_rafsi"],
        vec!["ccv_rafsi", "stressed_ccv_rafsi", "explicit_ccv_rafsi"],
        vec!["cvv_rafsi", "stressed_cvv_rafsi", "explicit_cvv_rafsi"],
        vec!["y_less_rafsi", "stressed_y_less_rafsi"],
        vec!["long_rafsi", "stressed_long_rafsi"],
        vec!["onset", "initial"],
        vec!["consonant", "syllabic", "voiced", "unvoiced"],
        vec!["extended_rafsi", "stressed_extended_rafsi", "any_extended_rafsi"],
        vec!["brivla_head", "fuhivla_head"],
        vec!["gismu", "fuhivla", "brivla_core", "lujvo", "brivla"],
        vec!["liquid", "r", "l"], vec!["initial_rafsi", "stressed_initial_rafsi"], vec!["glide", "i", "u"],
    ];
    let fam = |r: usize| -> Vec<usize> {
        fams.iter().filter(|f| f.contains(&names[r].as_str())).flat_map(|f| f.iter()).map(|x| ctx.id[*x]).filter(|&x| x != r).collect()
    };
    let mut jobs: Vec<(usize, Option<E>, Top, String)> = vec![];
    for (k, e) in ctx.rules.iter().enumerate() {
        let mut seen: Vec<E> = vec![];
        for m in mutants(e, &fam) {
            if m != *e && !seen.contains(&m) {
                seen.push(m.clone());
                jobs.push((k, Some(m), Top(0), String::new()));
            }
        }
    }
    // consonants: further forbidden followers
    let cons = "bcdfgjklmnprstvxz";
    for a in cons.chars() {
        for b in cons.chars() {
            if a != b {
                let k = ctx.id[&a.to_string()];
                jobs.push((k, Some(S(vec![ctx.rules[k].clone(), No(Box::new(N(ctx.id[&b.to_string()])))])), Top(0), String::new()));
            }
        }
    }
    for t in 1..TOPS {
        jobs.push((ctx.id["lojban_word"], None, Top(t), String::new()));
    }
    eprintln!("{} mutants", jobs.len());
    let next = Mutex::new(0usize);
    let pool: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
    let survivors = Mutex::new(vec![]);
    let found = Mutex::new(HashSet::<String>::new());
    std::thread::scope(|s| {
        for t in 0..8u64 {
            let (ctx, jobs, next, pool, survivors, found, users, wordlist, names) = (&ctx, &jobs, &next, &pool, &survivors, &found, &users, &wordlist, &names);
            std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(s, move || loop {
                let k = { let mut g = next.lock().unwrap(); let k = *g; *g += 1; k };
                if k >= jobs.len() { break }
                let (rule, m, top, _) = &jobs[k];
                let over = m.as_ref().map(|e| (*rule, e));
                let mut r = Rng(0x9E3779B97F4A7C15 ^ ((k as u64 + 1) * 7919 + t * 0));
                for _ in 0..10 { r.next(); }
                // 1: other words; 2: the same words, other classes
                let kind = |s: &[u8]| {
                    if s.is_empty() { return 0 }
                    let (a, b) = (words(ctx, None, Top(0), s), words(ctx, over, *top, s));
                    if a == b { 0 } else if a.iter().map(|w| w.0).ne(b.iter().map(|w| w.0)) { 1 } else { 2 }
                };
                let mut kills: Vec<Vec<u8>> = vec![];
                let mut got = [0usize; 3];
                let old: Vec<Vec<u8>> = pool.lock().unwrap().clone();
                for o in old.iter() {
                    if got[1] >= 2 && got[2] >= 2 { break }
                    let q = kind(o);
                    if q > 0 && got[q] < 2 { got[q] += 1; kills.push(o.clone()) }
                }
                let mut n = 0;
                while n < tries && (got[1] < 3 || got[2] < 3) {
                    n += 1;
                    let from = if n % 2 == 0 { over } else { None };
                    let mut c = candidate(ctx, *rule, from, users, wordlist, &mut r);
                    let q = kind(&c);
                    if q > 0 && got[q] < 3 {
                        loop {
                            let mut better = None;
                            for k in 0..c.len() {
                                let mut d = c.clone();
                                d.remove(k);
                                if kind(&d) == q { better = Some(d); break }
                            }
                            match better { Some(d) => c = d, None => break }
                        }
                        got[q] += 1;
                        if !kills.contains(&c) { kills.push(c) }
                    }
                    if n > tries / 4 && got[1] + got[2] >= 3 { break }
                }
                if kills.is_empty() {
                    survivors.lock().unwrap().push(format!("{} {:?} top {}", names[*rule], m, top.0));
                }
                let mut f = found.lock().unwrap();
                let mut p = pool.lock().unwrap();
                for k in kills {
                    let s = String::from_utf8(k.clone()).unwrap();
                    if f.insert(s) { p.push(k) }
                }
                if k % 200 == 0 { eprintln!("{k} {} killers", p.len()); }
            }).unwrap();
        }
    });
    let mut out: Vec<String> = found.into_inner().unwrap().into_iter().collect();
    out.sort();
    std::fs::write(&args[0], out.join("\n") + "\n").unwrap();
    let mut sv = survivors.into_inner().unwrap();
    sv.sort();
    let nm = |s: &String| -> String { let mut s = s.clone(); for k in (0..names.len()).rev() { s = s.replace(&format!("N({k})"), &names[k]); } s };
    for s in &sv { println!("{}", nm(s)) }
    eprintln!("{} killers, {} of {} not told apart", out.len(), sv.len(), jobs.len());
}
