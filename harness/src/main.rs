//! Conformance driver: performs one experiment on the real crate per input line and
//! prints what it observed as one JSON line.  It judges nothing.
//!
//! input line:  <id> TAB <command> TAB <args...>
//! output line: {"id":<id>, ...observation...} or {"id":<id>,"panic":true,"msg":...}
use std::fmt::Write as _;
use std::io::{BufRead, Write};

use sneturfahi::lex::{Error as LexError, Selmaho, Token};
use sneturfahi::parse::cst::Error;
use sneturfahi::parse::tree_node::TreeNode;
use sneturfahi::{decompose, lex, Arena, Cst, Span};

#[macro_use]
mod selmaho_names;

macro_rules! table {
	($($name:ident),* $(,)?) => {
		fn selmaho_of(name: &str) -> Option<Selmaho> {
			match name {
				$(stringify!($name) => Some(Selmaho::$name),)*
				_ => None,
			}
		}
		fn name_of(selmaho: Selmaho) -> &'static str {
			match selmaho {
				$(Selmaho::$name => stringify!($name),)*
				#[allow(unreachable_patterns)]
				_ => "<unknown selmaho>",
			}
		}
		const ALL: &[&str] = &[$(stringify!($name)),*];
	};
}
selmaho_names!(table);

fn json_str(s: &str) -> String {
	let mut o = String::from("\"");
	for ch in s.chars() {
		match ch {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
				let mut b = [0u16; 2];
				for u in c.encode_utf16(&mut b) {
					write!(o, "\\u{u:04x}").unwrap();
				}
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn unhex(s: &str) -> String {
	let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
	String::from_utf8(b).unwrap()
}

fn sp(s: Span) -> String {
	format!("[{},{}]", s.start, s.end)
}
fn osp(s: Option<Span>) -> String {
	s.map_or("[]".into(), sp)
}
fn list(i: impl IntoIterator<Item = String>) -> String {
	format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}
fn tok(t: &Token) -> String {
	format!("[\"{}\",{},{},{}]", name_of(t.selmaho), u8::from(t.experimental), t.span.start, t.span.end)
}
fn lexerr(e: &LexError) -> String {
	#[allow(unreachable_patterns)]
	match e {
		LexError::DelimitedQuoteMissingSeparator { initiator_span } => {
			format!("[\"MissingSeparator\",0,{},{},0,0]", initiator_span.start, initiator_span.end)
		}
		LexError::DelimitedQuoteUnclosed { initiator_span: i, starting_delimiter_span: s } => {
			format!("[\"Unclosed\",0,{},{},{},{}]", i.start, i.end, s.start, s.end)
		}
		LexError::PauseDelimitedQuoteEof { initiator_span: i } => {
			format!("[\"PauseEof\",0,{},{},0,0]", i.start, i.end)
		}
		_ => "[\"OtherError\",0,0,0,0,0]".into(),
	}
}
fn lexitem(r: &Result<Token, LexError>) -> String {
	match r {
		Ok(t) => tok(t),
		Err(e) => lexerr(e),
	}
}

/// prefix form: [k, name, experimental, start, end] for the leaf that is token k,
/// [0, ...] ... [-1, "", 0, 0, 0] around the children of a node; start = end = -1 if it has no location;
/// a childless node with a location that is not a token's is [-2, ...].
fn tree(node: &dyn TreeNode, tokens: &[Token], out: &mut Vec<String>) {
	let mut kids: Vec<&dyn TreeNode> = Vec::new();
	node.for_each_child(&mut |c| kids.push(c));
	let (s, e) = (node.start_location(), node.end_location());
	let loc = |l: Option<u32>| l.map_or(-1, i64::from);
	let row = |k: i64| {
		format!("[{k},{},{},{},{}]", json_str(node.name()), u8::from(node.experimental()), loc(s), loc(e))
	};
	if kids.is_empty() && (s.is_some() || e.is_some()) {
		let k = tokens
			.iter()
			.position(|t| Some(t.span.start) == s && Some(t.span.end) == e)
			.map_or(-2, |i| i as i64 + 1);
		out.push(row(k));
	} else {
		out.push(row(0));
		for kid in kids {
			tree(kid, tokens, out);
		}
		out.push("[-1,\"\",0,0,0]".into());
	}
}

fn parse_obs(tokens: &[Token], arena: &Arena) -> String {
	match Cst::parse(tokens, arena) {
		Ok(cst) => {
			let mut out = Vec::new();
			tree(cst.root(), tokens, &mut out);
			format!("\"ok\":1,\"at\":0,\"tree\":{}", list(out))
		}
		Err(e) => {
			// the location is the remaining tokens; say which token of the input that is
			let off = (e.location.as_ptr() as usize).wrapping_sub(tokens.as_ptr() as usize) / std::mem::size_of::<Token>();
			let inside = off.checked_add(e.location.len()) == Some(tokens.len());
			let (mut expected, met): (Vec<String>, bool) = match &e.error {
				Error::ExpectedGot { expected, got } => (expected.iter().map(|&s| json_str(name_of(s))).collect(), *got == e.location.first().copied()),
				_ => (Vec::new(), false),
			};
			expected.sort();
			expected.dedup();
			format!(
				"\"ok\":0,\"at\":{},\"expected\":{},\"met\":{},\"tree\":[]",
				if inside { off as i64 + 1 } else { -1 },
				list(expected),
				met as u8
			)
		}
	}
}

/// tokens from "Le,Gismu,..."; a trailing * marks experimental; @gap.len after it says how far behind the previous token and how long it is
fn synth(spec: &str) -> Vec<Token> {
	let mut at = 0u32;
	spec.split(',')
		.filter(|s| !s.is_empty())
		.map(|s| {
			let (s, place) = s.split_once('@').map_or((s, None), |(s, p)| (s, p.split_once('.')));
			let (s, experimental) = s.strip_suffix('*').map_or((s, false), |s| (s, true));
			let selmaho = selmaho_of(s).unwrap_or_else(|| panic!("harness: no selmaho {s}"));
			let (gap, len) = match place {
				Some((gap, len)) => (gap.parse().unwrap(), len.parse().unwrap()),
				None => (u32::from(at > 0), 1 + (s.len() as u32 % 3)),
			};
			at += gap;
			let t = Token { experimental, selmaho, span: Span::new(at, at + len) };
			at += len;
			t
		})
		.collect()
}

fn history(text: &str, ops: &str) -> String {
	// ops: n next, q next_no_decomposition, h size_hint, c run a copy to its end word by word, k stretch by stretch; 0 to 9 nth;
	// and of a copy: f all of it by folding, z how many, l the last
	let mut d = decompose(text);
	let mut out = Vec::new();
	for op in ops.chars() {
		out.push(match op {
			'n' => format!("[\"n\",{}]", osp(d.next())),
			'q' => format!("[\"q\",{}]", osp(d.next_no_decomposition())),
			'h' => {
				let (lo, hi) = d.size_hint();
				format!("[\"h\",[{lo},{}]]", hi.map_or(-1, |h| h as i64))
			}
			'c' => format!("[\"c\",{}]", list(d.clone().take(text.len() + 16).map(sp))),
			'k' => {
				let mut copy = d.clone();
				format!("[\"k\",{}]", list(std::iter::from_fn(|| copy.next_no_decomposition()).take(text.len() + 16).map(sp)))
			}
			'0'..='9' => format!("[\"{op}\",{}]", osp(d.nth(op as usize - '0' as usize))),
			'f' => {
				let all = d.clone().fold(Vec::new(), |mut all, s| {
					assert!(all.len() <= text.len() + 16, "runaway");
					all.push(sp(s));
					all
				});
				format!("[\"f\",{}]", list(all))
			}
			'z' => format!("[\"z\",[{}]]", d.clone().count()),
			'l' => format!("[\"l\",{}]", osp(d.clone().last())),
			_ => panic!("harness: op {op}"),
		});
	}
	list(out)
}

fn span_op(args: &[&str]) -> String {
	let n = |i: usize| args[i].parse::<u32>().unwrap();
	if args[0] == "new" {
		return std::panic::catch_unwind(|| Span::new(n(1), n(2))).map_or("[]".into(), sp);
	}
	let a = Span::new(n(1), n(2));
	match args[0] {
		"eq" => format!("[{}]", u8::from(a == Span::new(n(3), n(4)))),
		"len" => format!("[{}]", a.len()),
		"empty" => format!("[{}]", u8::from(a.is_empty())),
		"contains" => format!("[{}]", u8::from(a.contains(n(3)))),
		"overlaps" => format!("[{}]", u8::from(a.overlaps_with(Span::new(n(3), n(4))))),
		"between" => osp(Span::between(a, Span::new(n(3), n(4)))),
		"at" => sp(Span::at(n(1), n(2) - n(1))),
		"slice" | "before" | "after" => {
			let text = unhex(args[3]);
			let r = match args[0] {
				"slice" => a.slice(&text),
				"before" => a.slice_before(&text),
				_ => a.slice_after(&text),
			};
			// where the result lies, recovered through from_embedded_slice
			r.map_or("[]".into(), |s| {
				let back = Span::from_embedded_slice(text.as_ptr(), s);
				assert_eq!(back.slice(&text), Some(s));
				sp(back)
			})
		}
		"entire" => sp(Span::entire_slice(&unhex(args[3]))),
		// a piece of a text that itself begins at some byte of a longer one
		"embed" => {
			let text = unhex(args[3]);
			let outer = &text[n(4) as usize..];
			sp(Span::from_embedded_slice(outer.as_ptr(), &outer[n(1) as usize..n(2) as usize]))
		}
		op => panic!("harness: span op {op}"),
	}
}

fn run(cmd: &str, args: &[&str]) -> String {
	match cmd {
		// decompose by iteration; two further calls after the end
		"D" => {
			let text = unhex(args[0]);
			let mut d = decompose(&text);
			let mut out = Vec::new();
			while let Some(s) = d.next() {
				out.push(sp(s));
				assert!(out.len() <= 4 * text.len() + 16, "runaway");
			}
			let ext = u8::from(d.next().is_some()) + u8::from(d.next().is_some());
			format!("\"words\":{},\"after\":{ext}", list(out))
		}
		// decompose and classify every word
		"DC" => {
			let text = unhex(args[0]);
			let out = decompose(&text).map(|s| {
				let (c, e) = Selmaho::classify(s.slice(&text).unwrap());
				format!("[{},{},\"{}\",{}]", s.start, s.end, name_of(c), u8::from(e))
			});
			format!("\"words\":{}", list(out))
		}
		"H" => {
			let text = unhex(args[0]);
			format!("\"ops\":{}", history(&text, args[1]))
		}
		"L" => {
			let text = unhex(args[0]);
			let mut l = lex(&text);
			let mut out = Vec::new();
			while let Some(r) = l.next() {
				out.push(lexitem(&r));
				assert!(out.len() <= 4 * text.len() + 16, "runaway");
			}
			let ext = u8::from(l.next().is_some()) + u8::from(l.next().is_some());
			let mut more = String::new();
			// the same asked for in other ways
			if args.get(1) == Some(&"ways") {
				let (lo, hi) = lex(&text).size_hint();
				let mut l = lex(&text);
				let second = std::iter::from_fn(|| l.nth(1)).take(out.len() + 16).map(|r| lexitem(&r));
				write!(more, ",\"hint\":[{lo},{}],\"nth\":{}", hi.map_or(-1, |h| h as i64), list(second)).unwrap();
				let mut folded = Vec::new();
				lex(&text).for_each(|r| {
					assert!(folded.len() <= 4 * text.len() + 16, "runaway");
					folded.push(lexitem(&r));
				});
				write!(more, ",\"folded\":{},\"count\":{}", list(folded), lex(&text).count()).unwrap();
				write!(more, ",\"last\":{}", lex(&text).last().as_ref().map_or("[]".into(), lexitem)).unwrap();
			}
			format!("\"items\":{},\"after\":{ext}{more}", list(out))
		}
		"U" => format!("\"groups\":{}", every_char(args[0], &unhex(args[1]), args[2], args[3])),
		"W" => {
			let word = unhex(args[0]);
			let (s, e) = Selmaho::classify(&word);
			format!("\"class\":\"{}\",\"exp\":{}", name_of(s), u8::from(e))
		}
		// the static facts about every selmaho
		"M" => list_obj(ALL.iter().map(|n| {
			let s = selmaho_of(n).unwrap();
			assert_eq!(s.to_string(), s.as_repr());
			format!("[\"{n}\",{},{}]", json_str(s.as_repr()), u8::from(s.is_fundamentally_experimental()))
		})),
		"P" => {
			let tokens = synth(args[0]);
			if args.get(1) == Some(&"show") {
				std::hint::black_box(match Cst::parse(&tokens, &Arena::new()) {
					Ok(cst) => format!("{cst:?}").len() + format!("{:?}", cst.root()).len(),
					Err(e) => format!("{} {e:?}", e.error).len(),
				});
			}
			parse_obs(&tokens, &Arena::new())
		}
		// the same, the tree looked at through a box
		"PB" => {
			let tokens = synth(args[0]);
			let arena = Arena::new();
			match Cst::parse(&tokens, &arena) {
				Ok(cst) => {
					let mut out = Vec::new();
					tree(&Box::new(Box::new(cst.root())), &tokens, &mut out);
					format!("\"ok\":1,\"tree\":{}", list(out))
				}
				Err(_) => "\"ok\":0,\"tree\":[]".into(),
			}
		}
		// which characters count as separators
		"Q" => format!(
			"\"separators\":{}",
			list((0..=0x10ffff).filter_map(char::from_u32).filter(|&c| decompose::split_or_trim_condition(c)).map(|c| (c as u32).to_string()))
		),
		// the same thing n times, on a stack of the usual size
		"K" => {
			let (what, unit, n) = (args[0].to_owned(), args[1].to_owned(), args[2].parse::<usize>().unwrap());
			let go = move || match &*what {
				"P" => {
					let tokens = synth(&vec![unit; n].join(","));
					u8::from(Cst::parse(&tokens, &Arena::new()).is_ok()).to_string()
				}
				"W" => name_of(Selmaho::classify(&unit.repeat(n)).0).to_owned(),
				_ => decompose(&unit.repeat(n)).count().to_string(),
			};
			let r = std::thread::Builder::new().stack_size(8 << 20).spawn(go).unwrap().join();
			format!("\"answer\":{}", json_str(&r.unwrap_or_else(|p| std::panic::resume_unwind(p))))
		}
		// the whole pipeline on a text
		"X" => {
			let text = unhex(args[0]);
			let items: Vec<_> = lex(&text).collect();
			let shown = list(items.iter().map(lexitem));
			let tokens: Result<Vec<Token>, LexError> = items.into_iter().collect();
			match tokens {
				Err(_) => format!("\"items\":{shown},\"lexok\":0,\"ok\":0,\"at\":0,\"tree\":[]"),
				Ok(tokens) => {
					format!("\"items\":{shown},\"lexok\":1,{}", parse_obs(&tokens, &Arena::new()))
				}
			}
		}
		// a session: several things used alternately
		"Y" => format!("\"answers\":{}", session(args)),
		// several sessions at once, each in a thread of its own; they are separated by "|"
		"Z" => {
			let sessions: Vec<&[&str]> = args.split(|a| *a == "|").collect();
			let barrier = std::sync::Barrier::new(sessions.len());
			let done: Vec<String> = std::thread::scope(|scope| {
				let hs: Vec<_> = sessions
					.iter()
					.map(|s| {
						std::thread::Builder::new()
							.stack_size(64 << 20)
							.spawn_scoped(scope, || {
								barrier.wait();
								session(s)
							})
							.unwrap()
					})
					.collect();
				hs.into_iter().map(|h| h.join().unwrap()).collect()
			});
			format!("\"threads\":{}", list(done))
		}
		"S" => format!("\"span\":{}", span_op(args)),
		_ => panic!("harness: command {cmd}"),
	}
}

/// The text with every character between two put in the place of each U+0001, observed as cmd says: the different observations, positions
/// counted in characters, each with the number of characters that lead to it and the first and last of them.
fn every_char(cmd: &str, text: &str, from: &str, to: &str) -> String {
	let (from, to): (u32, u32) = (from.parse().unwrap(), to.parse().unwrap());
	let mut groups: Vec<(String, u32, char, char)> = Vec::new();
	for c in (from..=to).filter_map(char::from_u32) {
		let t: String = text.chars().map(|x| if x == '\u{1}' { c } else { x }).collect();
		let seen = std::panic::catch_unwind(|| {
			let at = |b: u32| t.get(..b as usize).map_or(-1, |s| s.chars().count() as i64);
			let span = |s: Span| format!("[{},{}]", at(s.start), at(s.end));
			match cmd {
				"D" => list(decompose(&t).map(|s| span(s))),
				"W" => {
					let (c, e) = Selmaho::classify(&t);
					format!("{} {e}", name_of(c))
				}
				_ => list(lex(&t).map(|i| match i {
					Ok(t) => format!("{} {} {}", name_of(t.selmaho), t.experimental, span(t.span)),
					Err(LexError::DelimitedQuoteMissingSeparator { initiator_span: i }) => format!("! {}", span(i)),
					Err(LexError::DelimitedQuoteUnclosed { initiator_span: i, starting_delimiter_span: s }) => format!("! {} {}", span(i), span(s)),
					Err(LexError::PauseDelimitedQuoteEof { initiator_span: i }) => format!("! {}", span(i)),
					#[allow(unreachable_patterns)]
					Err(_) => "!".into(),
				})),
			}
		})
		.unwrap_or_else(|_| "panic".into());
		if let Some(g) = groups.iter_mut().find(|g| g.0 == seen) {
			g.1 += 1;
			g.3 = c;
		} else if groups.len() < 500 {
			groups.push((seen, 1, c, c));
		}
	}
	list(groups.iter().map(|(_, n, a, z)| format!("[{n},{},{}]", *a as u32, *z as u32)))
}

fn list_obj(i: impl Iterator<Item = String>) -> String {
	format!("\"selmaho\":{}", list(i))
}

/// What a session works on: "D:hex" a text to decompose, "L:hex" a text to lex, "P:tokens" tokens to parse, "W:hex" a word to classify.
enum Thing<'a> {
	Words(sneturfahi::decompose::Decomposer<'a>),
	Tokens(Box<dyn Iterator<Item = Result<Token, LexError>> + 'a>),
	Input(usize, Vec<Token>),
	Word(String),
}

/// args: the things, then one argument "op op op ..." where an op is the number of a thing and what to do with it:
/// n next, q next_no_decomposition, c go on with a copy and run the original to its end, r start over, p parse, w classify, t walk the tree of the latest parse.
/// a: all at once, from a place in memory that all things are put in when this is asked.
/// All parses are in one arena, and all trees live until the end, when they are all walked again.
fn session(args: &[&str]) -> String {
	let (ops, things) = args.split_last().unwrap();
	let texts: Vec<String> = things.iter().map(|t| if t.starts_with("P:") { String::new() } else { unhex(&t[2..]) }).collect();
	let inputs: Vec<Vec<Token>> = things.iter().map(|t| t.strip_prefix("P:").map(synth).unwrap_or_default()).collect();
	let arena = Arena::new();
	let start = |k: usize| match things[k].as_bytes()[0] {
		b'D' => Thing::Words(decompose(&texts[k])),
		b'L' => Thing::Tokens(Box::new(lex(&texts[k]))),
		b'P' => Thing::Input(k, inputs[k].clone()),
		b'W' => Thing::Word(texts[k].clone()),
		_ => panic!("harness: thing {}", things[k]),
	};
	let mut live: Vec<Thing> = (0..things.len()).map(start).collect();
	let mut parsed: Vec<Option<Parsed<'_>>> = things.iter().map(|_| None).collect();
	let mut out = Vec::new();
	let mut place = String::with_capacity(4096);
	let mut token_place: Vec<Token> = Vec::with_capacity(4096);
	for op in ops.split(' ') {
		let (k, what) = op.split_at(op.len() - 1);
		let k: usize = k.parse().unwrap();
		let answer = if what == "r" {
			live[k] = start(k);
			"-".to_owned()
		} else if what == "a" {
			place.clear();
			place.push_str(&texts[k]);
			token_place.clear();
			token_place.extend_from_slice(&inputs[k]);
			match things[k].as_bytes()[0] {
				b'D' => list(decompose(&place).map(|w| sp(w))),
				b'L' => list(lex(&place).take(4 * place.len() + 16).map(|i| lexitem(&i))),
				b'P' => parse_shown(&token_place, &Cst::parse(&token_place, &Arena::new())),
				_ => {
					let (c, e) = Selmaho::classify(&place);
					format!("{} {e}", name_of(c))
				}
			}
		} else {
			match (what, &mut live[k]) {
				("n", Thing::Words(d)) => osp(d.next()),
				("q", Thing::Words(d)) => osp(d.next_no_decomposition()),
				("c", Thing::Words(d)) => {
					let mut copy = d.clone();
					std::mem::swap(&mut copy, d);
					copy.count().to_string()
				}
				("n", Thing::Tokens(l)) => l.next().as_ref().map_or("[]".into(), lexitem),
				("w", Thing::Word(w)) => {
					let (c, e) = Selmaho::classify(w);
					format!("{} {e}", name_of(c))
				}
				("p", Thing::Input(i, _)) => {
					let r = Cst::parse(&inputs[*i], &arena);
					let shown = parse_shown(&inputs[*i], &r);
					parsed[k] = Some(r);
					shown
				}
				("t", Thing::Input(i, _)) => parsed[k].as_ref().map_or("-".into(), |r| parse_shown(&inputs[*i], r)),
				_ => panic!("harness: op {op}"),
			}
		};
		out.push(format!("[{},{},{}]", k + 1, json_str(what), json_str(&answer)));
	}
	for (k, r) in parsed.iter().enumerate() {
		if let Some(r) = r {
			out.push(format!("[{},\"t\",{}]", k + 1, json_str(&parse_shown(&inputs[k], r))));
		}
	}
	list(out)
}

type Parsed<'a> = Result<Cst<'a>, sneturfahi::parse::cst::error::WithLocation<'a>>;

fn parse_shown(tokens: &[Token], r: &Parsed<'_>) -> String {
	match r {
		Ok(cst) => {
			let mut out = Vec::new();
			tree(cst.root(), tokens, &mut out);
			list(out)
		}
		Err(e) => {
			let off = (e.location.as_ptr() as usize).wrapping_sub(tokens.as_ptr() as usize) / std::mem::size_of::<Token>();
			format!("{off}+{} {:?}", e.location.len(), e.error)
		}
	}
}

/// formats every record and throws it away
struct Sink;
impl log::Log for Sink {
	fn enabled(&self, _: &log::Metadata) -> bool {
		true
	}
	fn log(&self, record: &log::Record) {
		std::hint::black_box(record.args().to_string());
	}
	fn flush(&self) {}
}

fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	if std::env::var_os("CONF_LOG").is_some() {
		log::set_logger(&Sink).unwrap();
		log::set_max_level(log::LevelFilter::Trace);
	}
	// a large stack, so that only runaway recursion and not mere depth exhausts it
	std::thread::Builder::new()
		.stack_size(512 << 20)
		.spawn(|| {
			let stdout = std::io::stdout();
			let mut out = std::io::BufWriter::with_capacity(1 << 16, stdout.lock());
			let flush = std::env::args().nth(1).as_deref() == Some("--flush");
			for line in std::io::stdin().lock().lines() {
				let line = line.unwrap();
				let mut f = line.split('\t');
				let id = f.next().unwrap().to_owned();
				let cmd = f.next().unwrap().to_owned();
				let args: Vec<&str> = f.collect();
				let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&cmd, &args)));
				match r {
					Ok(o) => writeln!(out, "{{\"id\":{id},{o}}}").unwrap(),
					Err(p) => {
						let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default();
						if m.starts_with("harness: ") {
							eprintln!("{m}");
							std::process::exit(3);
						}
						writeln!(out, "{{\"id\":{id},\"panic\":{}}}", json_str(&m)).unwrap();
					}
				}
				if flush {
					out.flush().unwrap();
				}
			}
			out.flush().unwrap();
		})
		.unwrap()
		.join()
		.unwrap();
}
