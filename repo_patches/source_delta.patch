From 2e5fd393b823ffaed55f294baa11a0f7f9c8d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 01/11] fix: ignore trailing commas when decomposing a chunk

The morphology rules let commas precede a letter but not follow the last one,
so "lobroda," was not decomposed and "djan," was not recognized as a cmevla.
---
 src/decompose/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index e127d8c..1b42c31 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -62,6 +62,8 @@ fn post_word(input: &str) -> bool {
 }
 
 fn decompose_single(input: &str) -> Vec<Span> {
+	// trailing commas are not part of any word, and the rules would trip over them.
+	let input = input.trim_end_matches(',');
 	let to_span = |slice| Span::from_embedded_slice(input.as_ptr(), slice);
 
 	if simple_cmevla_check(input) {
-- 
2.43.0


From c9488610287420e24ccc3e4ca5a909123ecebe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 02/11] fix: do not promise words for empty chunks in
 Decomposer::size_hint

The lower bound counted a pending chunk even if it is empty or only commas,
in which case fewer words than promised are yielded.
---
 src/decompose/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index 1b42c31..9c68b49 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -142,12 +142,8 @@ impl<'input> Iterator for Decomposer<'input> {
 	}
 
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let lower = self
-			.current_chunk
-			.as_slice()
-			.len()
-			.saturating_add(self.chunks.size_hint().0);
-		(lower, None)
+		// the remaining chunks may all be empty or only commas, so they guarantee no further words.
+		(self.current_chunk.len(), None)
 	}
 }
 
-- 
2.43.0


From 4d98d72352caaeb5e8ef1b3432609e9d7a4bb5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 03/11] fix: make all cmavo of the table reachable in
 Selmaho::classify

Some are longer than the 16-byte buffer, and one was spelled with a leading space.
---
 src/lex/selmaho/classify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index 3787602..1fc0933 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -55,7 +55,7 @@ impl Selmaho {
 	#[must_use]
 	#[allow(clippy::too_many_lines)] // giant match block
 	pub fn classify(word: &str) -> (Self, bool) {
-		let mut direct_cmavo_check_buf = [0u8; 16];
+		let mut direct_cmavo_check_buf = [0u8; 128];
 		let direct_cmavo_check = transform_for_direct_cmavo_check(word, &mut direct_cmavo_check_buf);
 
 		let mut is_experimental = false;
@@ -251,7 +251,7 @@ impl Selmaho {
 				| "se'i'i" | "sei'a" | "sei'u'e" | "si'ei" | "si'i'ai" | "so'au" | "soi'ai" | "soi'au"
 				| "su'ai" | "su'au" | "su'o'o" | "su'oi" | "sy'au" | "tau'u" | "va'ei'a" | "vau'au'o"
 				| "vo'ei'a" | "vu'ai" | "xe'a" | "xe'e" | "xei" | "xi'i'ei" | "xo'au" | "xo'e"
-				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | " vi'ei'e" => {
+				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | "vi'ei'e" => {
 					experimental!(Self::Pa)
 				}
 				"pe'e" => Self::Pehe,
-- 
2.43.0


From 0462e0de96b4a74c9dd1ced821e45f0a34f53eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 04/11] fix: do not underflow in Span::overlaps_with for an
 empty span at 0

---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index 2549c71..b4affca 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -312,7 +312,7 @@ impl Span {
 			left.is_empty() && (right.end == left.start || right.start == left.start)
 		}
 		fn non_commutative_helper(left: Span, right: Span) -> bool {
-			left.contains(right.start) || left.contains(right.end - 1)
+			left.contains(right.start) || (!right.is_empty() && left.contains(right.end - 1))
 		}
 
 		if non_commutative_empty_check(self, other) || non_commutative_empty_check(other, self) {
-- 
2.43.0


From 9d169317c20fa94e88d0e2799c493b19c2361e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 05/11] fix: locate a word mismatch at the offending token, not
 after it

---
 src/parse/cst/rules/selmaho.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/cst/rules/selmaho.rs b/src/parse/cst/rules/selmaho.rs
index 116fdf0..7d3235a 100644
--- a/src/parse/cst/rules/selmaho.rs
+++ b/src/parse/cst/rules/selmaho.rs
@@ -17,12 +17,12 @@ pub(in crate::parse::cst::rules) trait SelmahoTypeRaw:
 pub(in crate::parse::cst::rules) fn selmaho_raw<T: SelmahoTypeRaw>(
 	input: &[Token],
 ) -> ParseResult<'_, T> {
-	let mut input = input.iter();
-	T::try_from(input.next().copied())
-		.map(|matched| (input.as_slice(), matched))
+	let mut rest = input.iter();
+	T::try_from(rest.next().copied())
+		.map(|matched| (rest.as_slice(), matched))
 		.map_err(|error| {
 			nom::Err::Error(WithLocation {
-				location: input.as_slice(),
+				location: input,
 				error,
 			})
 		})
-- 
2.43.0


From e28c5359f8e1e2c9d2ca2267547fd947132c9cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 06/11] fix: parse a delimited quote without text

The lexer yields no text token for "zoi gy gy", but the grammar required one
and took the ending delimiter for it.
---
 src/parse/cst/rules/mod.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index 21db66e..e207717 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -870,7 +870,7 @@ pub struct ZoSumti {
 pub struct ZoiSumti {
 	pub zoi: Zoi,
 	pub starting_delimiter: ZoiDelimiter,
-	pub text: ZoiText,
+	pub text: Option<ZoiText>,
 	pub ending_delimiter: ZoiDelimiter,
 }
 
@@ -898,9 +898,26 @@ impl TreeNode for ZoiDelimiter {
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
 }
 
-#[derive(Debug, Parse)]
+#[derive(Debug)]
 pub struct ZoiText(Span);
 
+impl<'arena> Parse<'arena> for ZoiText {
+	fn parse<'a: 'arena>(input: &'a [Token], arena: &'arena Arena) -> ParseResult<'a, Self> {
+		let (rest, token) = Token::parse(input, arena)?;
+		if token.selmaho == Selmaho::AnyText {
+			Ok((rest, Self(token.span)))
+		} else {
+			Err(nom::Err::Error(
+				super::error::Error::ExpectedGot {
+					expected: (&[Selmaho::AnyText] as &[Selmaho]).into(),
+					got: Some(token),
+				}
+				.with_location(input),
+			))
+		}
+	}
+}
+
 impl TreeNode for ZoiText {
 	fn name(&self) -> &'static str {
 		"ZoiText"
-- 
2.43.0


From bc0c07e329bc8363b61d3286baae4740b2c11e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 07/11] fix: look ahead only once in the nucleus rule

A run of n vowels, such as a long hesitation "yyyyyy...", took time exponential in n.
---
 src/rules.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 3a16a55..05a3fd4 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -291,9 +291,13 @@ fn test_vowel() {
 	assert!(vowel(",,,,,a").succeeded_and_consumed_all());
 }
 
+fn diphthong_letters(input: &str) -> ParseResult<'_> {
+	or![seq![a, or![i, u]], seq![or![e, o], i]](input)
+}
+
 #[debug_rule]
 fn diphthong(input: &str) -> ParseResult<'_> {
-	or![seq![a, or![i, u]], seq![or![e, o], i]](input).and_not(nucleus)
+	diphthong_letters(input).and_not(nucleus)
 }
 
 #[test]
@@ -303,7 +307,13 @@ fn test_diphthong() {
 
 #[debug_rule]
 pub fn nucleus(input: &str) -> ParseResult<'_> {
-	or![vowel, diphthong, |input| y(input).and_not(nucleus)](input)
+	// equivalent to `or![vowel, diphthong](input)`, but looks ahead only once, since trying both takes exponential time on a run of vowels.
+	// the second letter of a diphthong by itself is a nucleus exactly if what follows the diphthong is not.
+	match diphthong_letters(input) {
+		Some((_matched, rest)) if nucleus(rest).is_some() => one_of("aAeEoO")(input),
+		Some(diphthong) => Some(diphthong),
+		None => vowel(input),
+	}
 }
 
 fn glide(input: &str) -> ParseResult<'_> {
-- 
2.43.0


From 3dadee060037fbee3c01d1e14ae9c55cc8770ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 08/11] fix: classify a long hesitation as such

A run of y longer than the buffer for the cmavo check was classified as an unknown cmavo.
---
 src/lex/selmaho/classify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index 1fc0933..a57a46a 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -55,7 +55,7 @@ impl Selmaho {
 	#[must_use]
 	#[allow(clippy::too_many_lines)] // giant match block
 	pub fn classify(word: &str) -> (Self, bool) {
-		let mut direct_cmavo_check_buf = [0u8; 128];
+		let mut direct_cmavo_check_buf = vec![0u8; word.len().max(1)];
 		let direct_cmavo_check = transform_for_direct_cmavo_check(word, &mut direct_cmavo_check_buf);
 
 		let mut is_experimental = false;
-- 
2.43.0


From 739f5a8acd11ae978906048fa03fb3c4eca247e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 09/11] fix: do not take exponential time to find words

The rules for words try the rest of the input again in many alternatives,
so that classifying an ordinary foreign word like "OneMoreTokenThen" took
minutes. Remember the results of the two rules that all of the recursion
goes through.
---
 src/rules.rs | 55 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 05a3fd4..b24289f 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -1,12 +1,52 @@
 #![allow(dead_code, unused_macros)]
 #![allow(clippy::unnecessary_wraps)] // consistency
 
-use std::cell::Cell;
+use std::cell::{Cell, RefCell};
+use std::collections::HashMap;
+use std::thread::LocalKey;
 
 use macros::debug_rule;
 
 std::thread_local! {
 	pub static PARSER_LEVEL: Cell<usize> = Cell::new(0);
+	static POST_WORD_RESULTS: Results = RefCell::new(None);
+	static ANY_SYLLABLE_RESULTS: Results = RefCell::new(None);
+}
+
+/// The results of one rule for the suffixes (by length) of the input of its outermost active call, if any: the lengths of what remains after them.
+type Results = RefCell<Option<HashMap<usize, Option<usize>>>>;
+
+/// Applies a recursive rule that would take exponential time otherwise, only once for each suffix of the input of its outermost call.
+fn remember<'a>(
+	results: &'static LocalKey<Results>,
+	rule: impl Fn(&'a str) -> ParseResult<'a>,
+	input: &'a str,
+) -> ParseResult<'a> {
+	/// Forgets the results when the outermost call ends, since they only apply to its input.
+	struct Forget(&'static LocalKey<Results>);
+	impl Drop for Forget {
+		fn drop(&mut self) {
+			self.0.with(|results| *results.borrow_mut() = None);
+		}
+	}
+
+	let outermost = results.with(|results| results.borrow().is_none());
+	let _forget = outermost.then(|| {
+		results.with(|results| *results.borrow_mut() = Some(HashMap::new()));
+		Forget(results)
+	});
+
+	let remembered = results.with(|results| results.borrow().as_ref()?.get(&input.len()).copied());
+	let remaining = remembered.unwrap_or_else(|| {
+		let remaining = rule(input).map(|(_matched, rest)| rest.len());
+		results.with(|results| {
+			if let Some(results) = results.borrow_mut().as_mut() {
+				results.insert(input.len(), remaining);
+			}
+		});
+		remaining
+	});
+	remaining.map(|remaining| input.split_at(input.len() - remaining))
 }
 
 macro_rules! debug_rule_start {
@@ -390,7 +430,12 @@ fn test_yhy_cmavo() {
 }
 
 pub fn post_word(input: &str) -> ParseResult<'_> {
-	or![eof, seq![not(nucleus), lojban_word]](input)
+	// all of the recursion between the rules for words goes through here.
+	remember(
+		&POST_WORD_RESULTS,
+		or![eof, seq![not(nucleus), lojban_word]],
+		input,
+	)
 }
 
 fn initial_pair(input: &str) -> ParseResult<'_> {
@@ -402,7 +447,11 @@ fn consonantal_syllable(input: &str) -> ParseResult<'_> {
 }
 
 fn any_syllable(input: &str) -> ParseResult<'_> {
-	or![seq![onset, nucleus, opt(coda)], consonantal_syllable](input)
+	remember(
+		&ANY_SYLLABLE_RESULTS,
+		or![seq![onset, nucleus, opt(coda)], consonantal_syllable],
+		input,
+	)
 }
 
 fn coda(input: &str) -> ParseResult<'_> {
-- 
2.43.0


From 67665a9a5002ddeb379ed1d7a1e84c5a15ef56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 10/11] fix: look past a run of BAhE only once

Every BAhE looked ahead for a ZEI, which may begin with BAhEs, each of which
looked ahead in turn: parsing took time exponential in the length of the run.
---
 src/parse/cst/rules/selmaho.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse/cst/rules/selmaho.rs b/src/parse/cst/rules/selmaho.rs
index 7d3235a..125aea6 100644
--- a/src/parse/cst/rules/selmaho.rs
+++ b/src/parse/cst/rules/selmaho.rs
@@ -100,7 +100,11 @@ macro_rules! token_types {
 			fn parse<'a: 'arena>(input: &'a [Token], arena: &Arena) -> ParseResult<'a, Self> {
 				let (input, value) = selmaho_raw::<$name>(input)?;
 				let (_, ()) = nom::combinator::not(|input| Bu::parse(input, arena))(input)?;
-				let (_, ()) = nom::combinator::not(|input| Zei::parse(input, arena))(input)?;
+				// a `Zei` cannot begin with a `Bahe`, since no `Bahe` can stand right before it.
+				// looking for it regardless would take exponential time on a run of `Bahe`s, each of which looks ahead in turn.
+				if !input.first().map_or(false, |token| token.selmaho == Selmaho::Bahe) {
+					let (_, ()) = nom::combinator::not(|input| Zei::parse(input, arena))(input)?;
+				}
 				Ok((input, value))
 			}
 		}
-- 
2.43.0


From 4376b91cf94b7d0eee9ab4a2641f428585322421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:33 +0000
Subject: [PATCH 11/11] fix: let bu follow a zei compound and zei follow a bu
 letter

A letter made with bu took everything up to its bu, so that a zei after it
was left over ("mi bu zei do" was rejected, unlike "cu mi bu zei do"), and
a bu after a zei compound was not accepted at all. As in the reference
grammar, let the two be mixed, as the compounder already does.
---
 src/parse/cst/rules/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index e207717..1400e10 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -731,6 +731,7 @@ pub enum Lerfu<'arena> {
 	Bu(
 		Option<Bahe>,
 		BuInner,
+		#[parse(with = "many0")] &'arena [BuZeiInner<'arena>],
 		#[parse(with = "many1")] &'arena [Bu],
 		#[parse(with = "many0")] &'arena [Indicators<'arena>],
 	),
@@ -743,6 +744,13 @@ pub enum Lerfu<'arena> {
 )]
 pub struct BuInner(Token);
 
+/// The counterpart of [`ZeiBuInner`]: a compound made with `zei` can have a `bu` after it, and a letter made with `bu` can have a `zei` after it.
+#[derive(Debug, Parse, TreeNode)]
+pub struct BuZeiInner<'arena>(
+	#[parse(with = "many0")] pub &'arena [Bu],
+	pub ZeiTail<'arena>,
+);
+
 pub type SumtiComponent<'arena> = WithFree<'arena, SumtiComponent1<'arena>>;
 
 #[derive(Debug, Parse, TreeNode)]
-- 
2.43.0

