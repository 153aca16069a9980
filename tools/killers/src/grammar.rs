use crate::Rng;
use serde_json::Value;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

type Sel = u16;
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    N(usize),
    T(Sel),
    Ti(Sel),
    Tr(Sel),
    Bu,
    Any,
    As(u64, Vec<Sel>),
    AnyBut(Vec<Sel>),
    S(Vec<E>),
    O(Box<E>),
    M(usize, Box<E>),
    Not(Box<E>),
    Cut(Box<E>),
    Mc(Box<E>),
    Alt(Vec<E>),
    Nd(u64, Box<E>),
    Till(Box<E>, Box<E>),
    /// word, with a flag: variant of the checks around words
    V(u8, Box<E>),
}
use E::*;

fn h(x: impl Hash) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

struct Ctx {
    rules: Vec<E>,
    names: Vec<String>,
    id: HashMap<String, usize>,
    sels: Vec<String>,
    sel: HashMap<String, Sel>,
    bu: Sel,
    zei: Sel,
    bahe: Sel,
    indicators: usize,
    text: usize,
}

fn load(v: &Value, id: &HashMap<String, usize>, sel: &HashMap<String, Sel>) -> E {
    let b = |k: usize| Box::new(load(&v[k], id, sel));
    let l = |k: usize| v[k].as_array().unwrap().iter().map(|x| load(x, id, sel)).collect();
    let st = |k: usize| v[k].as_str().unwrap();
    let ss = |k: usize| v[k].as_array().unwrap().iter().map(|x| sel[x.as_str().unwrap()]).collect();
    match st(0) {
        "n" => N(id[st(1)]),
        "t" => T(sel[st(1)]),
        "ti" => Ti(sel[st(1)]),
        "tr" => Tr(sel[st(1)]),
        "bu" => Bu,
        "any" => Any,
        "as" => As(h(st(1)), ss(2)),
        "anybut" => AnyBut(ss(1)),
        "s" => S(l(1)),
        "o" => O(b(1)),
        "m" => M(v[1].as_u64().unwrap() as usize, b(2)),
        "!" => Not(b(1)),
        "cut" => Cut(b(1)),
        "mc" => Mc(b(1)),
        "alt" => Alt(l(1)),
        "nd" => Nd(h(st(1)), b(2)),
        "till" => Till(b(1), b(2)),
        x => panic!("{x}"),
    }
}

struct Fam<'a> {
    rule: &'a dyn Fn(usize) -> Vec<usize>,
    sel: &'a dyn Fn(Sel) -> Vec<Sel>,
    inserts: &'a [E],
    frees: usize,
}

fn v(e: E) -> E { V(0, Box::new(e)) }
/// can e match nothing, as far as can be seen
fn empty(e: &E) -> bool {
    match e { O(_) | M(0, _) | Not(_) => true, S(v) => v.iter().all(empty), N(_) => false, _ => false }
}
fn mutants(e: &E, f: &Fam) -> Vec<E> {
    let mut out = own(e, f).into_iter().map(v).collect::<Vec<_>>();
    out.extend(inner(e, f));
    out
}
fn own(e: &E, f: &Fam) -> Vec<E> {
    let mut out = vec![];
    match e {
        N(r) => (f.rule)(*r).into_iter().for_each(|x| out.push(N(x))),
        T(s) => {
            out.push(Ti(*s));
            out.push(Tr(*s));
            for x in (f.sel)(*s) { out.push(Alt(vec![T(*s), v(T(x))])) }
        }
        Ti(s) => { out.push(T(*s)); out.push(Tr(*s)) }
        Tr(s) => { out.push(Ti(*s)); out.push(T(*s)) }
        As(n, l) => out.push(if l.is_empty() { AnyBut(vec![]) } else { As(*n, vec![]) }),
        AnyBut(l) => for k in 0..l.len() { let mut w = l.clone(); w.remove(k); out.push(AnyBut(w)) },
        S(l) => {
            for k in 0..l.len() {
                let mut w = l.clone();
                w.remove(k);
                out.push(S(w));
                if k + 1 < l.len() { let mut w = l.clone(); w.swap(k, k + 1); out.push(S(w)) }
                if !empty(&l[k]) {
                    let mut w = l.clone();
                    w[k] = O(Box::new(l[k].clone()));
                    out.push(S(w));
                    if k > 0 && !matches!(l[k], Cut(_)) && l[k] != N(f.frees) {
                        let mut w = l.clone();
                        w[k] = Cut(Box::new(l[k].clone()));
                        out.push(S(w));
                    }
                    let mut w = l.clone();
                    w[k] = v(M(1, Box::new(l[k].clone())));
                    if !matches!(l[k], M(..)) { out.push(S(w)) }
                }
            }
            for k in 0..=l.len() {
                for i in f.inserts {
                    if k > 0 && l[k - 1] == *i || k < l.len() && l[k] == *i { continue }
                    let mut w = l.clone();
                    w.insert(k, v(i.clone()));
                    out.push(S(w));
                }
            }
        }
        Alt(l) => {
            for k in 0..l.len() {
                if l.len() > 1 { let mut w = l.clone(); w.remove(k); out.push(Alt(w)) }
                for j in k + 1..l.len() { let mut w = l.clone(); w.swap(k, j); out.push(Alt(w)) }
            }
        }
        O(x) => { out.push((**x).clone()); out.push(S(vec![])); out.push(M(0, x.clone())) }
        M(n, x) => {
            out.push(M(1 - n, x.clone()));
            out.push(O(x.clone()));
            out.push(S(vec![O(x.clone()), v(O(x.clone()))]));
            out.push((**x).clone());
        }
        Cut(x) | Mc(x) => out.push((**x).clone()),
        Nd(n, x) => out.push(Nd(n ^ 1, x.clone())),
        Till(_, b) => out.push(Cut(b.clone())),
        _ => {}
    }
    out
}
fn inner(e: &E, f: &Fam) -> Vec<E> {
    let mut out = vec![];
    match e {
        S(l) | Alt(l) => {
            for k in 0..l.len() {
                for m in mutants(&l[k], f) {
                    let mut w = l.clone();
                    w[k] = m;
                    out.push(if matches!(e, S(_)) { S(w) } else { Alt(w) });
                }
            }
        }
        O(x) => out.extend(mutants(x, f).into_iter().map(|m| O(Box::new(m)))),
        M(n, x) => out.extend(mutants(x, f).into_iter().map(|m| M(*n, Box::new(m)))),
        Not(x) => out.extend(mutants(x, f).into_iter().map(|m| Not(Box::new(m)))),
        Cut(x) => out.extend(mutants(x, f).into_iter().map(|m| Cut(Box::new(m)))),
        Mc(x) => out.extend(mutants(x, f).into_iter().map(|m| Mc(Box::new(m)))),
        Nd(n, x) => out.extend(mutants(x, f).into_iter().map(|m| Nd(*n, Box::new(m)))),
        Till(a, b) => {
            out.extend(mutants(a, f).into_iter().map(|m| Till(Box::new(m), b.clone())));
            out.extend(mutants(b, f).into_iter().map(|m| Till(a.clone(), Box::new(m))));
        }
        _ => {}
    }
    out
}

#[derive(Clone, PartialEq, Debug)]
enum R {
    Ok(usize, Vec<u64>),
    Soft(usize),
    Hard(usize),
}
struct P<'a> {
    c: &'a Ctx,
    over: Option<(usize, &'a E)>,
    w: u8,
    tk: &'a [Sel],
    memo: Vec<Option<R>>,
    prog: Vec<bool>,
    calls: usize,
}
const WORDS: u8 = 10;
impl P<'_> {
    fn at(&self, i: usize) -> Sel {
        self.tk.get(i).copied().unwrap_or(u16::MAX)
    }
    fn zei_at(&self, i: usize) -> bool {
        let j = if self.w == 1 { i } else { self.bahe_end(i) };
        self.at(j) == self.c.zei && (self.w == 2 || self.free_at(j + 1))
    }
    fn free_at(&self, i: usize) -> bool {
        (self.w == 3 || self.at(i) != self.c.bu) && (self.w == 4 || !self.zei_at(i))
    }
    fn bahe_end(&self, i: usize) -> usize {
        if self.at(i) == self.c.bahe && (self.w == 5 || self.free_at(i + 1)) {
            if self.w == 6 { i + 1 } else { self.bahe_end(i + 1) }
        } else {
            i
        }
    }
    fn word(&mut self, s: Sel, i: usize, ind: bool) -> R {
        let j = self.bahe_end(i);
        if self.at(j) != s {
            return R::Soft(j);
        }
        let (p, kids) = if ind {
            match self.rule(self.c.indicators, j + 1) {
                R::Ok(p, k) => (p, k),
                R::Soft(_) => (j + 1, vec![]),
                hard => return hard,
            }
        } else {
            (j + 1, vec![])
        };
        if self.w == 7 && !self.free_at(j + 1) || self.w != 7 && self.w != 8 && !self.free_at(p) {
            return R::Soft(p);
        }
        let mut k: Vec<u64> = (i..j).map(|x| h((1, x))).collect();
        k.push(h((2, j)));
        k.extend(kids);
        R::Ok(p, vec![h((s, k))])
    }
    fn rule(&mut self, r: usize, i: usize) -> R {
        let slot = r * (self.tk.len() + 2) + i;
        if let Some(x) = &self.memo[slot] {
            return x.clone();
        }
        if self.prog[slot] {
            return R::Soft(i);
        }
        self.prog[slot] = true;
        let c = self.c;
        let over = self.over;
        let e: &E = match over {
            Some((k, e)) if k == r => e,
            _ => &c.rules[r],
        };
        self.calls += 1;
        let v = self.go(e, i);
        self.memo[slot] = Some(v.clone());
        v
    }
    fn go(&mut self, e: &E, i: usize) -> R {
        let n = self.tk.len();
        match e {
            N(r) => self.rule(*r, i),
            T(s) => self.word(*s, i, true),
            Ti(s) => self.word(*s, i, false),
            Tr(s) => {
                if self.at(i) != *s {
                    R::Soft(i)
                } else if self.w != 9 && !self.free_at(i + 1) {
                    R::Soft(i + 1)
                } else {
                    R::Ok(i + 1, vec![h((3, i))])
                }
            }
            Bu => if self.at(i) != self.c.bu { R::Soft(i) } else { R::Ok(i + 1, vec![h((3, i))]) },
            Any => if i >= n { R::Soft(i) } else { R::Ok(i + 1, vec![h((3, i))]) },
            AnyBut(v) => if i >= n || v.contains(&self.at(i)) { R::Soft(i) } else { R::Ok(i + 1, vec![h((3, i))]) },
            As(nm, v) => if i >= n || !v.is_empty() && !v.contains(&self.at(i)) { R::Soft(i) } else { R::Ok(i + 1, vec![h((nm, i))]) },
            S(v) => {
                let mut p = i;
                let mut kids = vec![];
                for x in v {
                    match self.go(x, p) {
                        R::Ok(q, k) => { p = q; kids.extend(k) }
                        r => return r,
                    }
                }
                R::Ok(p, kids)
            }
            O(x) => match self.go(x, i) { R::Soft(_) => R::Ok(i, vec![]), r => r },
            M(min, x) => {
                let mut p = i;
                let mut kids = vec![];
                let mut first = *min > 0;
                loop {
                    match self.go(x, p) {
                        R::Ok(q, k) => {
                            if q == p { return R::Soft(p) }
                            p = q;
                            kids.extend(k);
                            first = false;
                        }
                        R::Soft(q) => return if first { R::Soft(q) } else { R::Ok(p, kids) },
                        r => return r,
                    }
                }
            }
            Not(x) => match self.go(x, i) { R::Ok(..) => R::Soft(i), R::Soft(_) => R::Ok(i, vec![]), r => r },
            Cut(x) => match self.go(x, i) { R::Soft(p) => R::Hard(p), r => r },
            Mc(x) => match self.go(x, i) { R::Ok(p, _) if p == i => R::Soft(i), r => r },
            Alt(v) => {
                for (k, x) in v.iter().enumerate() {
                    match self.go(x, i) {
                        R::Soft(_) if k + 1 < v.len() => {}
                        r => return r,
                    }
                }
                R::Soft(i)
            }
            Nd(nm, x) => match self.go(x, i) { R::Ok(p, k) => R::Ok(p, vec![h((nm, k))]), r => r },
            Till(f, g) => {
                let mut p = i;
                let mut kids = vec![];
                loop {
                    match self.go(g, p) {
                        R::Ok(q, k) => { kids.extend(k); return R::Ok(q, kids) }
                        R::Soft(_) => {}
                        r => return r,
                    }
                    match self.go(f, p) {
                        R::Ok(q, k) => { kids.extend(k); if q == p { return R::Soft(p) } p = q }
                        r => return r,
                    }
                }
            }
            V(_, x) => self.go(x, i),
        }
    }
}
/// (accepted, location, tree)
fn parse(c: &Ctx, over: Option<(usize, &E)>, w: u8, tk: &[Sel]) -> (bool, usize, u64) {
    let n = c.rules.len() * (tk.len() + 2);
    let mut p = P { c, over, w, tk, memo: vec![None; n], prog: vec![false; n], calls: 0 };
    match p.rule(c.text, 0) {
        R::Ok(q, k) if q == tk.len() => (true, 0, k[0]),
        R::Ok(q, _) | R::Soft(q) | R::Hard(q) => (false, q, 0),
    }
}

struct Deriver<'a> {
    c: &'a Ctx,
    over: Option<(usize, &'a E)>,
    reach: &'a [Vec<u32>],
    min: &'a [usize],
    r: &'a mut Rng,
    p: f64,
    goals: Vec<usize>,
    out: Vec<Sel>,
    depth: usize,
    maxlen: usize,
    steps: usize,
}
impl Deriver<'_> {
    fn leads(&self, e: &E) -> Option<u32> {
        let g = *self.goals.last()?;
        let mut best = None;
        fn go(d: &Deriver, g: usize, e: &E, best: &mut Option<u32>) {
            match e {
                N(r) => { let x = d.reach[g][*r]; let x = if x == u32::MAX { x } else { x + 1 }; if x != u32::MAX && best.is_none_or(|b| x < b) { *best = Some(x) } }
                S(v) | Alt(v) => v.iter().for_each(|x| go(d, g, x, best)),
                O(x) | Mc(x) | Cut(x) | M(_, x) | Nd(_, x) => go(d, g, x, best),
                Till(a, b) => { go(d, g, a, best); go(d, g, b, best) }
                V(_, x) => { if g == d.c.rules.len() { *best = Some(0) } else { go(d, g, x, best) } }
                _ => {}
            }
        }
        go(self, g, e, &mut best);
        best
    }
    fn dev(&mut self) -> bool {
        self.goals.is_empty() && self.out.len() < self.maxlen && self.depth < 40 && self.r.chance(self.p)
    }
    fn size(&self, e: &E) -> usize {
        match e {
            N(r) => self.min[*r],
            T(_) | Ti(_) | Tr(_) | Bu | Any | AnyBut(_) | As(..) => 1,
            S(v) => v.iter().map(|x| self.size(x)).sum::<usize>().min(1000000),
            Alt(v) => v.iter().map(|x| self.size(x)).min().unwrap(),
            O(_) | Not(_) => 0,
            M(n, x) => n * self.size(x),
            Mc(x) => self.size(x).max(1),
            Cut(x) | Nd(_, x) => self.size(x),
            Till(_, x) => self.size(x),
            V(_, x) => self.size(x).max(matches!(**x, O(_) | M(0, _)) as usize),
        }
    }
    fn go(&mut self, e: &E) {
        self.steps += 1; if self.out.len() > 40 || self.depth > 200 || self.steps > 3000 { return }
        match e {
            N(r) => {
                if self.goals.last() == Some(r) { self.goals.pop(); }
                self.depth += 1;
                let c = self.c;
                let x = match self.over { Some((k, e)) if k == *r => e, _ => &c.rules[*r] };
                self.go(x);
                self.depth -= 1;
            }
            T(s) | Ti(s) | Tr(s) => {
                if !matches!(e, Tr(_)) && self.r.chance(0.02) { self.out.push(self.c.bahe) }
                self.out.push(*s);
                if matches!(e, T(_)) && self.r.chance(0.03) {
                    let x = *self.r.pick(&["Ui", "Nai", "Y", "Cai"]);
                    self.out.push(self.c.sel[x])
                }
            }
            Bu => self.out.push(self.c.bu),
            Any | AnyBut(_) => { let x = self.r.pick(&["Gismu", "Koha", "Cmevla", "Le", "Bu", "Zei", "Bahe", "Ui", "Pa", "By", "AnyText", "Na", "Ku", "Zo", "Lehu", "Faho", "I", "Si", "Nai", "Y"]); self.out.push(self.c.sel[*x]) }
            As(_, v) => { let x = if v.is_empty() { *self.r.pick(&["ZoiDelimiter", "ZoiDelimiter", "Koha"]) } else { "AnyText" }; self.out.push(self.c.sel[x]) }
            S(v) => {
                let best = self.leads(e);
                let mut done = best.is_none();
                for x in v {
                    if !done && self.leads(x) == best { done = true; self.go(x) }
                    else if done { self.go(x) }
                    else {
                        let g = std::mem::take(&mut self.goals);
                        let p = std::mem::replace(&mut self.p, 0.0);
                        self.go(x);
                        self.goals = g;
                        self.p = p;
                    }
                }
            }
            Alt(v) => {
                if let Some(b) = self.leads(e) {
                    let o: Vec<&E> = v.iter().filter(|x| self.leads(x) == Some(b)).collect();
                    let x = *self.r.pick(&o);
                    return self.go(x);
                }
                if self.dev() { let x = self.r.pick(v); return self.go(x) }
                let m = v.iter().map(|x| self.size(x)).min().unwrap();
                let o: Vec<&E> = v.iter().filter(|x| self.size(x) == m).collect();
                let x = *self.r.pick(&o);
                self.go(x)
            }
            O(x) => if self.leads(x).is_some() || self.dev() { self.go(x) },
            M(n, x) => {
                let mut k = *n;
                if self.leads(x).is_some() { k = k.max(1) }
                if self.dev() { k += *self.r.pick(&[1, 1, 2, 3]) }
                for _ in 0..k { self.go(x) }
            }
            Not(_) => {}
            Mc(x) => {
                let l = self.out.len();
                for _ in 0..3 { self.go(x); if self.out.len() > l { break } }
            }
            Cut(x) | Nd(_, x) => self.go(x),
            Till(a, b) => { for _ in 0..self.r.below(3) { self.go(a) } self.go(b) }
            V(_, x) => {
                if self.goals.last() == Some(&self.c.rules.len()) { self.goals.pop(); }
                match &**x {
                    O(y) => self.go(y),
                    M(_, y) => { for _ in 0..1 + self.r.below(3) { self.go(y) } }
                    _ => self.go(x),
                }
            }
        }
    }
}

fn calls(e: &E, out: &mut Vec<usize>) {
    match e {
        N(r) => out.push(*r),
        S(v) | Alt(v) => v.iter().for_each(|x| calls(x, out)),
        O(x) | Mc(x) | Cut(x) | M(_, x) | Nd(_, x) | Not(x) => calls(x, out),
        Till(a, b) => { calls(a, out); calls(b, out) }
        _ => {}
    }
}
fn sels_of(e: &E, out: &mut Vec<Sel>) {
    match e {
        T(s) | Ti(s) | Tr(s) => out.push(*s),
        S(v) | Alt(v) => v.iter().for_each(|x| sels_of(x, out)),
        O(x) | Mc(x) | Cut(x) | M(_, x) | Nd(_, x) | Not(x) => sels_of(x, out),
        Till(a, b) => { sels_of(a, out); sels_of(b, out) }
        _ => {}
    }
}

pub fn main(v: &Value, args: &[String]) {
    let tries: usize = args[1].parse().unwrap();
    let obj = v["grammar"].as_object().unwrap();
    let mut names: Vec<String> = obj.keys().cloned().collect();
    names.sort();
    let id: HashMap<String, usize> = names.iter().enumerate().map(|(k, n)| (n.clone(), k)).collect();
    let mut sels: Vec<String> = v["repr"].as_object().unwrap().keys().cloned().collect();
    sels.sort();
    let sel: HashMap<String, Sel> = sels.iter().enumerate().map(|(k, n)| (n.clone(), k as Sel)).collect();
    let rules: Vec<E> = names.iter().map(|n| load(&obj[n], &id, &sel)).collect();
    let nr = rules.len();
    let c = Ctx { bu: sel["Bu"], zei: sel["Zei"], bahe: sel["Bahe"], indicators: id["Indicators"], text: id["Text"], rules, names, id, sels, sel };
    // reach[target][rule]
    let mut users = vec![vec![]; nr];
    for (k, e) in c.rules.iter().enumerate() {
        let mut u = vec![];
        calls(e, &mut u);
        for x in u { users[x].push(k) }
    }
    let reach: Vec<Vec<u32>> = (0..nr).map(|t| {
        let mut d = vec![u32::MAX; nr];
        d[t] = 0;
        let mut q = std::collections::VecDeque::from([t]);
        while let Some(x) = q.pop_front() {
            for &u in &users[x] { if d[u] == u32::MAX { d[u] = d[x] + 1; q.push_back(u) } }
        }
        d
    }).collect();
    let mut min = vec![1000000usize; nr];
    loop {
        let mut r = Rng(1);
        let d = Deriver { c: &c, over: None, reach: &reach, min: &min, r: &mut r, p: 0.0, goals: vec![], out: vec![], depth: 0, maxlen: 0, steps: 0 };
        let m: Vec<usize> = c.rules.iter().map(|e| d.size(e)).collect();
        if m == min { break }
        min = m;
    }
    let near: Vec<Vec<&str>> = vec![vec!["A", "Ja", "Giha", "Joi", "Bihi", "Gaho", "Ga", "Guha", "Gi", "I"],
        vec!["Ku", "Kei", "Vau", "Kuho", "Gehu", "Kehe", "Lihu", "Luhu", "Beho", "Fehu", "Sehu", "Toi", "Tuhu", "Nuhu", "Veho", "Tehu", "Boi", "Loho", "Mehu", "Dohu", "Kuhe", "Foi", "Lehu"],
        vec!["Bo", "Ke"], vec!["Koha", "Gismu", "Cmevla", "By", "Pa", "Lujvo", "Fuhivla", "Goha"],
        vec!["Pu", "Zi", "Zeha", "Zaho", "Tahe", "Roi", "Caha", "Bai", "Faha", "Va", "Veha", "Viha", "Fehe", "Mohi", "Ki", "Cuhe", "Fiho"],
        vec!["Le", "La", "Lahe", "Nahe", "Se", "Jai", "Na", "Me", "Nu", "Nuha", "Be", "Bei", "Cei", "Co"], vec!["Coi", "Doi"], vec!["Moi", "Mai", "Roi"],
        vec!["Sei", "Soi", "To", "Xi"], vec!["Goi", "Noi", "Zihe", "Vuho"], vec!["Ui", "Cai", "Nai", "Daho", "Fuho", "Y", "Fuhe"], vec!["Pehe", "Cehe"]];
    let nsel = |s: Sel| -> Vec<Sel> {
        let n = &c.sels[s as usize];
        let g: Vec<Sel> = near.iter().filter(|g| g.contains(&n.as_str())).flat_map(|g| g.iter()).filter(|x| *x != n).map(|x| c.sel[*x]).collect();
        let mut r = Rng(s as u64 * 77777 + 12345);
        for _ in 0..5 { r.next(); }
        let mut o = vec![];
        for _ in 0..3 { if !g.is_empty() { let x = *r.pick(&g); if !o.contains(&x) { o.push(x) } } }
        o
    };
    let groups: Vec<Vec<&str>> = vec![vec!["JoikJek", "JoikEk", "Joik", "Jek", "Ek", "Gihek"], vec!["TagWords", "TagWord", "Tag"], vec!["Number", "MiscNumbers", "LerfuString", "Quantifier", "NumberRest", "LerfuWord"],
        vec!["Expression", "Expression1", "Operand", "ReversePolish"], vec!["Operand", "Operand1", "Operand2", "Operand3"], vec!["Operator", "Operator1", "Operator2", "Operator3"],
        vec!["Args", "Arg", "TailArgs"], vec!["Arg", "Arg1", "Arg2", "Arg3"], vec!["RelativeClauses", "RelativeClause"], vec!["Subsentence", "Sentence", "SentenceTail"],
        vec!["Sumti", "Sumti1", "Sumti2", "Sumti3", "Sumti4", "SumtiComponent"], vec!["Selbri", "Selbri1", "Selbri2", "Selbri3", "Selbri4", "Selbri5", "Selbri6", "TanruUnit"],
        vec!["Gek", "Guhek", "Gik"], vec!["Frees", "Free"], vec!["Text", "Paragraphs", "Sentences1", "Paragraph", "Sentences2"], vec!["SentenceTail1", "SentenceTail2", "SentenceTail3", "SentenceTail4", "GekSentence"],
        vec!["TanruUnit", "TanruUnit1", "TanruUnit2"], vec!["Indicators", "Indicator"]];
    let fam_r = |r: usize| -> Vec<usize> {
        let n = c.names[r].as_str();
        let mut o: Vec<usize> = groups.iter().filter(|g| g.contains(&n)).flat_map(|g| g.iter()).filter(|x| **x != n).map(|x| c.id[*x]).collect();
        o.sort(); o.dedup(); o
    };
    let inserts = vec![N(c.id["Frees"]), O(Box::new(N(c.id["TagWords"])))];
    let f = Fam { rule: &fam_r, sel: &nsel, inserts: &inserts, frees: c.id["Frees"] };
    let mut jobs: Vec<(usize, Option<E>, u8)> = vec![];
    for (k, e) in c.rules.iter().enumerate() {
        let mut seen: HashSet<String> = HashSet::new();
        for m in mutants(e, &f) {
            if m != *e && seen.insert(format!("{m:?}")) { jobs.push((k, Some(m), 0)) }
        }
    }
    for w in 1..WORDS { jobs.push((c.id["Lerfu"], None, w)) }
    eprintln!("{} mutants", jobs.len());
    let starts = ["Sentence", "SentenceTail", "Arg", "Sumti", "Selbri", "TanruUnit2", "Sentences3", "Subsentence", "TailArgs", "Tag", "Sumti4", "Expression", "GekSentence", "RelativeClause"];
    let used: Vec<Sel> = { let mut u = vec![]; c.rules.iter().for_each(|e| sels_of(e, &mut u)); u.sort(); u.dedup(); u };
    let openers: HashSet<Sel> = ["Lu", "To", "Nu", "Le", "La", "Ke", "Vei", "Fiho", "Tuhe", "Ga", "Guha", "Noi", "Nuhi", "Be", "Lahe", "Me", "Soi", "Sei", "Xi", "Maho", "Mohe", "Nihe", "Nahu", "Johi", "Peho", "Li", "Coi", "Doi", "Tei", "Nuha", "Goi", "Se", "Nahe", "Jai", "Na"].iter().map(|x| c.sel[*x]).collect();
    let next = Mutex::new(0usize);
    let pool: Mutex<Vec<Vec<Sel>>> = Mutex::new(vec![]);
    let found = Mutex::new(HashMap::<Vec<Sel>, u8>::new());
    let survivors = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            let (c, jobs, next, pool, found, survivors, reach, min, used, openers) = (&c, &jobs, &next, &pool, &found, &survivors, &reach, &min, &used, &openers);
            std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(s, move || loop {
                let k = { let mut g = next.lock().unwrap(); let k = *g; *g += 1; k };
                if k >= jobs.len() { break }
                let (rule, m, w) = &jobs[k];
                let over = m.as_ref().map(|e| (*rule, e));
                let mut r = Rng(0x9E3779B97F4A7C15 ^ ((k as u64 + 1) * 7919));
                for _ in 0..10 { r.next(); }
                // 0 same, 1 acceptance, 2 tree, 3 location
                let kind = |t: &[Sel]| {
                    let a = parse(c, None, 0, t);
                    let b = parse(c, over, *w, t);
                    if a == b { 0 } else if a.0 != b.0 { 1 } else if a.0 { 2 } else { 3 }
                };
                let mut reachm = reach.clone();
                reachm.push(vec![]);
                let mut got = [0usize; 4];
                let mut kills: Vec<(Vec<Sel>, u8)> = vec![];
                let old = pool.lock().unwrap().clone();
                for o in old.iter().rev().take(3000) {
                    let q = kind(o);
                    if q > 0 { got[q] += 1; if got[q] <= 1 { kills.push((o.clone(), q as u8)) } }
                    if got[1] >= 2 && got[2] >= 2 && got[3] >= 2 { break }
                }
                let mut n = 0;
                while n < tries && !(got[1] >= 2 && (got[2] >= 2 || n > 400) && (got[3] >= 2 || n > 400)) {
                    if n > 1500 && got[1] + got[2] + got[3] >= 2 { break }
                    n += 1;
                    let goals = match r.below(3) {
                        0 => vec![*rule],
                        1 => vec![*rule, c.id[*r.pick(&starts)]],
                        _ => vec![*rule, r.below(c.rules.len())],
                    };
                    let marked = m.is_some() && n % 4 != 1;
                    let goals = if marked && n % 3 == 0 { vec![*rule] } else { goals };
                    let goals: Vec<usize> = if goals.len() == 2 && reach[goals[0]][goals[1]] == u32::MAX { vec![*rule] } else { goals };
                    let p = *r.pick(&[0.0, 0.05, 0.1, 0.2, 0.3, 0.4]);
                    let mut goals = goals;
                    if marked { *goals.first_mut().unwrap() = c.rules.len(); reachm[c.rules.len()].clone_from(&reach[*rule]); }
                    let ov = if marked { over } else { None };
                    let mut d = Deriver { c, over: ov, reach: &reachm, min, r: &mut r, p, goals, out: vec![], depth: 0, maxlen: 10, steps: 0 };
                    d.go(&N(c.text));
                    let mut t = d.out;
                    let z = r.below(4);
                    for _ in 0..z.saturating_sub(1) {
                        let l = t.len();
                        if l == 0 { break }
                        match r.below(5) {
                            0 => { let i = r.below(l); t.remove(i); }
                            1 => { let i = r.below(l + 1); t.insert(i, *r.pick(used)) }
                            2 => { let (i, j) = (r.below(l), r.below(l)); t.swap(i, j) }
                            3 => { let i = r.below(l); t[i] = *r.pick(used) }
                            _ => { let i = r.below(l); t.truncate(i) }
                        }
                    }
                    if t.len() > 24 { continue }
                    let q = kind(&t);
                    if q == 0 || got[q] >= 2 { continue }
                    loop {
                        let mut better = None;
                        for k in 0..t.len() {
                            let mut d = t.clone();
                            d.remove(k);
                            if kind(&d) == q { better = Some(d); break }
                        }
                        match better { Some(d) => t = d, None => break }
                    }
                    if t.iter().filter(|x| openers.contains(x)).count() > 9 { continue }
                    if !kills.iter().any(|x| x.0 == t) { got[q] += 1; kills.push((t, q as u8)) }
                }
                if got[1] + got[2] + got[3] == 0 {
                    survivors.lock().unwrap().push(format!("{} {:?} words {}", c.names[*rule], m, w));
                }
                let mut fo = found.lock().unwrap();
                let mut p = pool.lock().unwrap();
                for (t, q) in kills { if fo.insert(t.clone(), q).is_none() { p.push(t) } }
                if k % 500 == 0 { eprintln!("{k} {} killers", p.len()) }
            }).unwrap();
        }
    });
    let found = found.into_inner().unwrap();
    let mut out: Vec<String> = found.iter().map(|(t, _)| t.iter().map(|x| c.sels[*x as usize].as_str()).collect::<Vec<_>>().join(" ")).collect();
    out.sort_by_key(|x| (x.len(), x.clone()));
    std::fs::write(&args[0], out.join("\n") + "\n").unwrap();
    let mut sv = survivors.into_inner().unwrap();
    sv.sort();
    for s in &sv {
        let mut s = s.clone();
        for k in (0..nr).rev() { s = s.replace(&format!("N({k})"), &c.names[k]) }
        for k in (0..c.sels.len()).rev() { for t in ["T", "Ti", "Tr"] { s = s.replace(&format!("{t}({k})"), &format!("{t}:{}", c.sels[k])) } }
        println!("{s}")
    }
    eprintln!("{} killers, {} of {} not told apart", out.len(), sv.len(), jobs.len());
}
