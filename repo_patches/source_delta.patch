From 6aa44ba5963154859c65fadc178ad459b28d5587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:20 +0000
Subject: [PATCH 01/32] fix: make number equality and ordering agree with the
 number line

Equality between floats and integers depended on the operand order, and
ordering saturated for floats outside the integer range. Negative zero
and negative NaN sorted below every unsigned integer. Equality now
follows the ordering, and the ordering checks the range first.
---
 src/ds/num.rs | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index fe526f0..e382be9 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -276,22 +276,7 @@ impl fmt::Display for IntoNumberErr {
 
 impl PartialEq for Number {
     fn eq(&self, other: &Number) -> bool {
-        match (self, other) {
-            // Three cases where lhs and rhs are same type
-            (Uint(lhs), Uint(rhs)) => lhs.eq(rhs),
-            (Int(lhs), Int(rhs)) => lhs.eq(rhs),
-            (Float(lhs), Float(rhs)) => cmp_float_to_float(*lhs, *rhs) == Ordering::Equal,
-
-            // Integers
-            (Uint(lhs), Int(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Uint(lhs), Float(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Uint(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Float(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-
-            // Floats
-            (Float(lhs), Uint(_)) => lhs.eq(&other.as_f64()),
-            (Float(lhs), Int(_)) => lhs.eq(&other.as_f64()),
-        }
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -381,9 +366,9 @@ fn cmp_uint_to_int(lhs: &u128, rhs: i128) -> Ordering {
 fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() {
+    if lhs < 0.0 {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs >= UINT_END || lhs.is_nan() {
         Greater
     } else {
         let (floor, ceil) = float_bounds_uint(lhs);
@@ -402,9 +387,9 @@ fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
 fn cmp_float_to_int(lhs: f64, rhs: i128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() && lhs.is_infinite() {
+    if lhs < -INT_END {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs >= INT_END || lhs.is_nan() {
         Greater
     } else {
         let (floor, ceil) = float_bounds_int(lhs);
@@ -428,13 +413,19 @@ fn rev_ordering(ord: Ordering) -> Ordering {
     }
 }
 
-/// make sure to check infinities and nan beforehand
+/// The first float past the unsigned integer range (2^128).
+const UINT_END: f64 = 340_282_366_920_938_463_463_374_607_431_768_211_456.0;
+
+/// The first float past the signed integer range (2^127).
+const INT_END: f64 = 170_141_183_460_469_231_731_687_303_715_884_105_728.0;
+
+/// make sure to check the range and nan beforehand
 /// make sure to check for positivity
 fn float_bounds_uint(f: f64) -> (u128, u128) {
     (f.floor() as u128, f.ceil() as u128)
 }
 
-/// make sure to check infinities and nan beforehand
+/// make sure to check the range and nan beforehand
 fn float_bounds_int(f: f64) -> (i128, i128) {
     (f.floor() as i128, f.ceil() as i128)
 }
-- 
2.43.0


From 938791ee7a56c36b9f9a355632a0a37de592194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:28 +0000
Subject: [PATCH 02/32] fix: hash equal numbers to the same value

Negative zero equals zero and every NaN equals every other NaN, yet the
raw bit patterns were hashed.
---
 src/ds/num.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index e382be9..1131cda 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -253,7 +253,16 @@ impl FromStr for Number {
 
 impl Hash for Number {
     fn hash<H: Hasher>(&self, hasher: &mut H) {
-        self.as_f64().to_bits().hash(hasher)
+        let x = self.as_f64();
+        // all zeroes are equal, as well as all NaNs, so they must hash the same
+        let x = if x == 0.0 {
+            0.0
+        } else if x.is_nan() {
+            std::f64::NAN
+        } else {
+            x
+        };
+        x.to_bits().hash(hasher)
     }
 }
 
-- 
2.43.0


From 64a3ecae507c252484148de6441e571d7742342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:36 +0000
Subject: [PATCH 03/32] fix: reject floats outside the integer range in integer
 conversions

Converting a float past the 128 bit range saturated to the largest or
smallest integer instead of failing.
---
 src/ds/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 1131cda..ee9af52 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -140,7 +140,7 @@ impl Number {
             Uint(x) => Ok(*x),
             Int(x) => (*x).try_into().map_err(|_| IntoIntError),
             Float(x) => {
-                if x.is_finite() && x >= &0.0 {
+                if *x >= 0.0 && *x < UINT_END {
                     let r = x.round();
                     let y = (r - x).abs();
                     if y < 1e-10 {
@@ -176,7 +176,7 @@ impl Number {
             Uint(x) => (*x).try_into().map_err(|_| IntoIntError),
             Int(x) => Ok(*x),
             Float(x) => {
-                if x.is_finite() {
+                if *x >= -INT_END && *x < INT_END {
                     let r = x.round();
                     let y = (r - x).abs();
                     if y < 1e-10 {
-- 
2.43.0


From 945489764715ee5f43b1e5f875bd1e5b88b5b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:58 +0000
Subject: [PATCH 04/32] fix: write large floats so that they read back as the
 same number

Large floats were written as zero padded digits. Those digits were read
as an integer of a different value, or did not fit an integer at all.
---
 src/ds/num.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index ee9af52..e16f1e3 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -215,6 +215,9 @@ impl fmt::Display for Number {
         match self {
             Uint(x) => write!(f, "{}", x),
             Int(x) => write!(f, "{}", x),
+            // past the exact integer range the digits get zero padded, which would read back as
+            // a different integer
+            Float(x) if x.is_finite() && x.abs() >= FLOAT_EXACT_END => write!(f, "{:e}", x),
             Float(x) => write!(f, "{}", x),
         }
     }
@@ -428,6 +431,9 @@ const UINT_END: f64 = 340_282_366_920_938_463_463_374_607_431_768_211_456.0;
 /// The first float past the signed integer range (2^127).
 const INT_END: f64 = 170_141_183_460_469_231_731_687_303_715_884_105_728.0;
 
+/// The end of the contiguous range of integers a float represents exactly (2^53).
+const FLOAT_EXACT_END: f64 = 9_007_199_254_740_992.0;
+
 /// make sure to check the range and nan beforehand
 /// make sure to check for positivity
 fn float_bounds_uint(f: f64) -> (u128, u128) {
-- 
2.43.0


From 1174a9d47dc7b151c3ac0106bb4098d53cb71dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:28 +0000
Subject: [PATCH 05/32] fix: parse identities which start with true or false

Any input starting with the letters of a boolean was read as a boolean,
so an identity such as 'trueish' could not be parsed.
---
 src/parse/heuristics.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index e69c49e..d200617 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -22,19 +22,16 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         None,
     }
 
-    if orig.starts_with("true") || orig.starts_with("false") {
-        return Ok((orig, Nonprim::None));
-    }
-
     let (i, ident_) = opt(ident(true))(orig)?;
     let (i, ident_) = if ident_.is_some() {
         (i, Ident::Prim)
     } else {
         let (i, ident__) = opt(ident(false))(orig)?;
-        if ident__.is_some() {
-            (i, Ident::Nonprim)
-        } else {
-            (orig, Ident::None)
+        match ident__.as_ref().map(|x| x.as_str()) {
+            // a boolean, and not just a name which starts like one
+            Some("true") | Some("false") => return Ok((orig, Nonprim::None)),
+            Some(_) => (i, Ident::Nonprim),
+            None => (orig, Ident::None),
         }
     };
 
-- 
2.43.0


From 0ab25372ae3adf2d75e51b385a8cd37beff679e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:43 +0000
Subject: [PATCH 06/32] fix: do not join an item with the brackets on the line
 below

In a multi-line list a value such as NaN was taken as the identity of
the tuple, sequence, or map on the next line, which failed to parse.
---
 src/parse/heuristics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index d200617..f1bc0a0 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -35,7 +35,8 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         }
     };
 
-    let (i, _) = multiline_whitespace(i)?;
+    // only inline whitespace, the item on the next line is a different one
+    let (i, _) = inline_whitespace(i)?;
     let next = i.chars().next().unwrap_or(' ');
 
     let mut r = if next == '[' {
-- 
2.43.0


From 1c0eeb60edac6d2340fcb2b8d0ac08c6375659d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:55 +0000
Subject: [PATCH 07/32] fix: parse map keys once

A key which failed to parse was parsed again as an inline value. The
multi-line parser already accepts inline values, so the second attempt
could never succeed and nested keys took exponential time to reject.
---
 src/parse/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/map.rs b/src/parse/map.rs
index 69c247c..7fa3ede 100644
--- a/src/parse/map.rs
+++ b/src/parse/map.rs
@@ -14,7 +14,7 @@ fn kvp_kserd_to_kserd<'a, E: CxErr<'a>>(
         context(
             "kserd-kserd key-value pair",
             separated_pair(
-                alt((kserd_concise, kserd_inline)),
+                kserd_concise,
                 ignore_inline_whitespace(char(':')),
                 ignore_inline_whitespace(value_parser),
             ),
-- 
2.43.0


From bf94510ad03fbc610bf1f0991d15429e7a1b15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:21 +0000
Subject: [PATCH 08/32] fix: do not read an equals sign inside a list or string
 as a field

The look ahead for a field assignment passed over commas, brackets, and
the start of delimited strings. A tuple or sequence holding a string
with an equals sign was parsed as a container, and failed.
---
 src/parse/heuristics.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index f1bc0a0..8f5df80 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -105,8 +105,14 @@ pub(super) fn recognise_concise(i: &str) -> bool {
 
 /// Recognises the sequence: `field_name =`.
 pub(super) fn recognise_field_assign(i: &str) -> bool {
+    // `str` followed by a delimiter is a string, and an '=' could be inside it
+    let string = i.strip_prefix("str").and_then(|i| i.chars().next());
+    if string.map_or(false, |c| !(c.is_ascii_alphanumeric() || "-_= \t".contains(c))) {
+        return false;
+    }
+
     // maybe_names is a litle more relaxed than field_name so it can recognise but still fail
-    let not = "<>(){}='\"\r\n";
+    let not = "<>(){}[],:='\"\r\n";
     let maybe_names =
         take_while::<_, _, ()>(move |c: char| c.is_ascii_alphanumeric() || !not.contains(c));
     terminated(maybe_names, char('='))(i).is_ok()
-- 
2.43.0


From 204b27568ec4d2b3a4b7710250b3c09fa2012e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:13 +0000
Subject: [PATCH 09/32] fix: choose string delimiters which parse back as a
 string

A string using the quote symbols could be delimited with '=', '_', or
'(', which the parser reads as a field, a name, or a tuple. A string
using all of the symbols caused a panic.
---
 src/fmt/prims.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/fmt/prims.rs b/src/fmt/prims.rs
index 9f639ad..9924ddc 100644
--- a/src/fmt/prims.rs
+++ b/src/fmt/prims.rs
@@ -28,6 +28,8 @@ fn fmt_unit(buf: &mut String, ident: Option<&str>) {
     }
 }
 
+/// Only symbols which can not be mistaken for something else are used as delimiters: an `=` looks
+/// like a field assignment, a `_` like a name, and a `(` like a tuple.
 fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
     maybe_write_prim_ident(buf, fmt_ident, ident);
     let used = Used::parse(val);
@@ -39,8 +41,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str#{}#", val)
     } else if !used.contains(Used::BACKTICK) {
         write!(buf, "str`{}`", val)
-    } else if !used.contains(Used::EQ) {
-        write!(buf, "str={}=", val)
     } else if !used.contains(Used::PIPE) {
         write!(buf, "str|{}|", val)
     } else if !used.contains(Used::STAR) {
@@ -55,8 +55,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str~{}~", val)
     } else if !used.contains(Used::AMP) {
         write!(buf, "str&{}&", val)
-    } else if !used.contains(Used::UNDERSCORE) {
-        write!(buf, "str_{}_", val)
     } else if !used.contains(Used::BACKSLASH) {
         write!(buf, "str\\{}\\", val)
     } else if !used.contains(Used::SLASH) {
@@ -67,12 +65,15 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str<{}<", val)
     } else if !used.contains(Used::R_ANGLE) {
         write!(buf, "str>{}>", val)
-    } else if !used.contains(Used::L_PAREN) {
-        write!(buf, "str({}(", val)
     } else if !used.contains(Used::R_PAREN) {
         write!(buf, "str){})", val)
     } else {
-        panic!("exhausted delimiter options for formatting a string");
+        // all symbols are used, fall back to any character the string does not have
+        let delim = (0xa1..=std::char::MAX as u32)
+            .filter_map(std::char::from_u32)
+            .find(|&c| !val.contains(c))
+            .expect("exhausted delimiter options for formatting a string");
+        write!(buf, "str{}{}{}", delim, val, delim)
     }
     .ok();
 }
@@ -96,7 +97,6 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const QUOTE = 0x2;
         const HASH = 0x4;
         const BACKTICK = 0x8;
-        const EQ = 0x10;
         const PIPE = 0x20;
         const STAR = 0x40;
         const HAT = 0x80;
@@ -104,13 +104,11 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const PERCENT = 0x200;
         const TILDE = 0x400;
         const AMP = 0x800;
-        const UNDERSCORE = 0x1000;
         const BACKSLASH = 0x2000;
         const SLASH = 0x4000;
         const COLON = 0x8000;
         const L_ANGLE = 0x10000;
         const R_ANGLE = 0x20000;
-        const L_PAREN = 0x40000;
         const R_PAREN = 0x80000;
     }
 }
@@ -130,7 +128,6 @@ impl Used {
             '\'' => Self::QUOTE,
             '#' => Self::HASH,
             '`' => Self::BACKTICK,
-            '=' => Self::EQ,
             '|' => Self::PIPE,
             '*' => Self::STAR,
             '^' => Self::HAT,
@@ -138,13 +135,11 @@ impl Used {
             '%' => Self::PERCENT,
             '~' => Self::TILDE,
             '&' => Self::AMP,
-            '_' => Self::UNDERSCORE,
             '\\' => Self::BACKSLASH,
             '/' => Self::SLASH,
             ':' => Self::COLON,
             '<' => Self::L_ANGLE,
             '>' => Self::R_ANGLE,
-            '(' => Self::L_PAREN,
             ')' => Self::R_PAREN,
             _ => Self::empty(),
         }
-- 
2.43.0


From 8d4de316b57778f04ab633564ca8be45ec8bb7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:21 +0000
Subject: [PATCH 10/32] fix: keep the preceding character of a tuple with a
 hidden identity

The space after the identity was removed even if the identity was not
written, which dropped whatever came before the tuple.
---
 src/fmt/tuples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/tuples.rs b/src/fmt/tuples.rs
index 52f896a..d4e3b4a 100644
--- a/src/fmt/tuples.rs
+++ b/src/fmt/tuples.rs
@@ -7,7 +7,7 @@ pub(super) fn write(buf: String, node: Node, fmts: &[Fmt], col: usize, seq: SeqI
 
     let prefix = |mut buf| {
         maybe_write_nonprim_ident(&mut buf, fmt.id, id);
-        if id.is_some() {
+        if fmt.id && id.is_some() {
             buf.pop();
         }
         buf.push('(');
-- 
2.43.0


From b9861eac52338261f824253ea86df3fa6e340be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:40 +0000
Subject: [PATCH 11/32] fix: indent the entries of a verbose map

Entries of a map inside a nested container were written without any
indent, so they were parsed as fields of the outermost container.
---
 src/fmt/maps.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index ae5fbf3..77d0617 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -93,10 +93,13 @@ pub(super) fn write(
 
             for (k, v) in map {
                 // write field name
+                write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
                 buf.push_str("]]\n");
 
+                write_indent(&mut buf, col);
+
                 // if verbose write on new line, otherwise it is just concise like above
                 match fmts.get(v.index()).unwrap().line {
                     Repr::Verbose => {
-- 
2.43.0


From c4ad12011ad4f60ff250a4fba8a18c6463d6f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:08 +0000
Subject: [PATCH 12/32] fix: write identities of verbose sequences and maps

The identity was dropped in the verbose format even if it was asked for.
The parser already understands the '[[name:identity]]' header.
---
 src/fmt/maps.rs |  1 +
 src/fmt/mod.rs  | 11 +++++++++++
 src/fmt/seqs.rs |  1 +
 3 files changed, 13 insertions(+)

diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index 77d0617..ab7ea95 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -96,6 +96,7 @@ pub(super) fn write(
                 write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
+                maybe_write_field_ident(&mut buf, fmt.id, id);
                 buf.push_str("]]\n");
 
                 write_indent(&mut buf, col);
diff --git a/src/fmt/mod.rs b/src/fmt/mod.rs
index 358f871..7f712ac 100644
--- a/src/fmt/mod.rs
+++ b/src/fmt/mod.rs
@@ -474,6 +474,17 @@ fn maybe_write_nonprim_ident(buf: &mut String, print: bool, ident: Option<&str>)
     }
 }
 
+/// Maybe writes the identity of a verbose field.
+/// These are always in ':Name' format.
+fn maybe_write_field_ident(buf: &mut String, print: bool, ident: Option<&str>) {
+    if print {
+        if let Some(ident) = ident {
+            buf.push(':');
+            buf.push_str(ident);
+        }
+    }
+}
+
 fn delim_writer<P, B, S>(buf: String, prefix: P, suffix: S, body: B) -> String
 where
     P: FnOnce(String) -> String,
diff --git a/src/fmt/seqs.rs b/src/fmt/seqs.rs
index 911e4e1..7903bc3 100644
--- a/src/fmt/seqs.rs
+++ b/src/fmt/seqs.rs
@@ -63,6 +63,7 @@ pub(super) fn write(
                 write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
+                maybe_write_field_ident(&mut buf, fmt.id, id);
                 buf.push_str("]]\n");
 
                 // write value
-- 
2.43.0


From 0fbc11ea0703442218d296957fd2feb786bb6f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:53 +0000
Subject: [PATCH 13/32] fix: parse multi-line keys of verbose maps

The formatter writes the keys of a verbose map in the multi-line format,
but only inline keys were parsed.
---
 src/parse/cntr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index e1bcce3..b3cbb2b 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -227,11 +227,11 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
             let (i, _) = ignore_inline_whitespace(line_ending)(i)?;
 
             // now work out if it is a map or just sequence.
-            // a map as the usual inline kserd, followed by the colon.
+            // a map as the usual delimited kserd, followed by the colon.
 
-            // get the key (kserd-inline:)
+            // get the key (kserd-concise:)
             let (i, key) = opt(terminated(
-                ignore_inline_whitespace(uncut(kserd_inline)),
+                ignore_inline_whitespace(uncut(kserd_concise)),
                 ignore_inline_whitespace(char(':')),
             ))(i)?;
 
-- 
2.43.0


From 71bb2056554cec225c11e1a16a1140a2adcacf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:20 +0000
Subject: [PATCH 14/32] fix: recognise a nested verbose field with an identity

Input starting with '[name:identity]' was not seen as the verbose
format, so formatting a container could give text that did not parse.
---
 src/parse/heuristics.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 8f5df80..04cea20 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -71,14 +71,20 @@ pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(orig: &'a str) -> IResult<
     // generally a Verbose format can be recognised by:
     // - An identity (:id)
     // - A direct mapping (var_name = xxx)
-    // - A nested mapping ([var_name])
+    // - A nested mapping ([var_name] or [var_name:id])
     // - A sequence or map entry ([[var_name]])
     let encased = |s, e| {
         preceded::<_, _, _, (), _, _>(
             tag(s),
             terminated(
                 ignore_inline_whitespace(valid_name),
-                ignore_inline_whitespace(tag(e)),
+                preceded(
+                    opt(preceded(
+                        ignore_inline_whitespace(char(':')),
+                        ignore_inline_whitespace(valid_name),
+                    )),
+                    ignore_inline_whitespace(tag(e)),
+                ),
             ),
         )(i)
         .is_ok()
-- 
2.43.0


From 5310ce7353b3c8c0194233fea36c7b91fe5c2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:05 +0000
Subject: [PATCH 15/32] fix: tell sequences apart from verbose field headers

A sequence of sequences, or a sequence of a single word such as [true],
was taken as the header of a verbose field and could not be parsed.
---
 src/parse/cntr.rs       |  4 +++-
 src/parse/heuristics.rs | 22 +++++++++++++++++++++-
 src/parse/mod.rs        |  4 ++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index b3cbb2b..99598c2 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -287,7 +287,9 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
     }
 }
 
-fn expect_indents<'a, E: CxErr<'a>>(indents: usize) -> impl Fn(&'a str) -> IResult<&'a str, (), E> {
+pub(super) fn expect_indents<'a, E: CxErr<'a>>(
+    indents: usize,
+) -> impl Fn(&'a str) -> IResult<&'a str, (), E> {
     move |i: &'a str| {
         let mut r = i;
 
diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 04cea20..b3053e1 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -64,8 +64,12 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
 }
 
 /// This only matches `Verbose` variants, returning true if it looks like a `Verbose` formatting.
+/// `indents` is the number of indents expected inside the container.
 /// _Always_ returns the original input.
-pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(orig: &'a str) -> IResult<&'a str, bool, E> {
+pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(
+    indents: usize,
+    orig: &'a str,
+) -> IResult<&'a str, bool, E> {
     let (i, _) = multiline_whitespace(orig)?; // ignore _all_ whitespace before hand
 
     // generally a Verbose format can be recognised by:
@@ -94,10 +98,26 @@ pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(orig: &'a str) -> IResult<
     let is = is || i.starts_with("[[");
     let is = is || recognise_field_assign(i);
     let is = is || encased("[", "]");
+    let is = is && !(i.starts_with('[') && recognise_seq(indents, orig));
 
     Ok((orig, is))
 }
 
+/// A sequence such as `[true]` or `[[1], [2]]` looks like the start of a verbose field.
+/// It is a sequence if it is all there is to parse, or if it is an entry which is not indented like
+/// the fields of a nested container would be.
+fn recognise_seq(indents: usize, i: &str) -> bool {
+    let seq = ignore_inline_whitespace::<_, (), _>(kserd_concise);
+
+    if indents == 0 {
+        all_consuming(terminated(seq, multiline_whitespace))(i).is_ok()
+    } else {
+        let eol = alt((line_ending, eof));
+        cntr::expect_indents::<()>(indents)(i).is_err()
+            && terminated(seq, ignore_inline_whitespace(eol))(i).is_ok()
+    }
+}
+
 /// Looks at the next characters, ignoring spaces. If there is a a new line before
 /// other characters then we say that this is in `Concise` format.
 pub(super) fn recognise_concise(i: &str) -> bool {
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 6858271..200aedb 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -15,7 +15,7 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_till, take_while, take_while1},
     character::complete::{alpha1, char, line_ending},
-    combinator::{all_consuming, cut, map, map_parser, opt},
+    combinator::{all_consuming, cut, eof, map, map_parser, opt},
     error::{self, context, ErrorKind, VerboseErrorKind},
     multi::{many0, separated_list0},
     sequence::{preceded, separated_pair, terminated},
@@ -93,7 +93,7 @@ fn kserd_nested<'a, E: CxErr<'a>>(
     indents: usize,
 ) -> impl Fn(&'a str) -> IResult<&'a str, Kserd<'a>, E> {
     move |i: &'a str| {
-        let (i, verbose) = pattern_match_verbose(i)?;
+        let (i, verbose) = pattern_match_verbose(indents, i)?;
         if verbose {
             // verbose can only be a Container type!
             cntr::verbose(indents)(i)
-- 
2.43.0


From 5fce6c34d02e2a9ac2d58f8030917522f1a5849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:48 +0000
Subject: [PATCH 16/32] fix: limit map keys and unnamed sequences to delimited
 formats

A container as a map key could be formatted as verbose, which panicked.
A sequence or map inside another one has no field name to be written
with, so its verbose children ended up inside brackets and did not
parse.
---
 src/fmt/formatter.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 8b9d52e..88232d3 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -20,6 +20,8 @@ use std::{error, fmt as stdfmt, ops::Deref};
 /// 3. Tuples cannot be formatted as `Verbose`
 /// 4. Primitives can _only_ be formatted as `Inline`
 /// 5. A sequence or map which is at the root cannot be formatted as `Verbose`
+/// 6. A sequence or map directly inside another one cannot be formatted as `Verbose`
+/// 7. Keys of a map cannot be formatted as `Verbose`
 ///
 /// If a request is made that fails one of these conditions, an error result is returned.
 ///
@@ -104,11 +106,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
 
         for node in nav.nodes() {
             indices.push(node.index());
-            let mut line = max_line_repr(&node.value());
-
-            if node.is_key() {
-                line = std::cmp::min(line, Repr::Concise);
-            }
+            let line = max_line_repr(&node);
 
             let id = true;
 
@@ -300,7 +298,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
     }
 
     fn line_repr_constraints(&self, node: &Node) -> (Repr, Option<Repr>) {
-        let max_line_repr = max_line_repr(&node.value());
+        let max_line_repr = max_line_repr(node);
         let parent_line_repr = node
             .parent()
             .and_then(|p| self.fmts.get(p.index()))
@@ -361,10 +359,10 @@ impl<'a, 'k> Deref for Formatter<'a, 'k> {
     }
 }
 
-/// Highest line representation a node value can take, ie Primitives are only allowed to be Inline.
-fn max_line_repr(nv: &NodeValue) -> Repr {
+/// Highest line representation a node can take, ie Primitives are only allowed to be Inline.
+fn max_line_repr(node: &Node) -> Repr {
     use NodeValue::*;
-    match nv {
+    match node.value() {
         Primitive => Repr::Inline, // primitives are always inline
         // Empty tuples, seq, map, cntrs should be inlined
         Tuple(x) if x.is_empty() => Repr::Inline,
@@ -372,10 +370,20 @@ fn max_line_repr(nv: &NodeValue) -> Repr {
         Map(x) if x.is_empty() => Repr::Inline,
         Cntr(x) if x.is_empty() => Repr::Inline,
         Tuple(_) => Repr::Concise, // tuples can be at most concise
+        _ if node.is_key() => Repr::Concise, // keys are always delimited
+        // verbose sequences and maps are written with the name of the field
+        Seq(_) | Map(_) if in_seq_or_map(node) => Repr::Concise,
         _ => Repr::Verbose,        // everything else can be from verbose
     }
 }
 
+fn in_seq_or_map(node: &Node) -> bool {
+    match node.parent().map(|x| x.value()) {
+        Some(NodeValue::Seq(_)) | Some(NodeValue::Map(_)) => true,
+        _ => false,
+    }
+}
+
 /// Validates that the request can be made.
 /// Will return the `Repr` if it can, otherwise the error if not.
 fn validate_requst_repr(
-- 
2.43.0


From 848a10a087ac90054902f13d347e7f1b6fdeffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:16 +0000
Subject: [PATCH 17/32] fix: order an empty container equal to an empty tuple

The two compare as equal, but the ordering placed them apart. A map could
then hold both as different keys.
---
 src/ds/val.rs | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/ds/val.rs b/src/ds/val.rs
index bd0396a..b8e1ae3 100644
--- a/src/ds/val.rs
+++ b/src/ds/val.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::{Fields, List, Map};
 use std::{
     borrow::{Borrow, Cow},
+    cmp::Ordering,
     error, fmt,
     ops::{Deref, DerefMut},
 };
@@ -36,7 +37,6 @@ use std::{
 ///
 /// [`BTreeMap`]: std::collections::BTreeMap
 /// [`Kserd`]: crate::Kserd
-#[derive(Eq, PartialOrd, Ord)]
 pub enum Value<'a> {
     /// A unit value `()`.
     Unit,
@@ -110,6 +110,50 @@ impl<'a> PartialEq for Value<'a> {
     }
 }
 
+impl<'a> Eq for Value<'a> {}
+
+impl<'a> PartialOrd for Value<'a> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl<'a> Ord for Value<'a> {
+    fn cmp(&self, b: &Self) -> Ordering {
+        use Value::*;
+
+        /// Position of the variant, different variants are ordered by it.
+        fn rank(v: &Value) -> u8 {
+            match v {
+                Unit => 0,
+                Bool(_) => 1,
+                Num(_) => 2,
+                Str(_) => 3,
+                Barr(_) => 4,
+                Tuple(_) => 5,
+                Cntr(_) => 6,
+                Seq(_) => 7,
+                Map(_) => 8,
+            }
+        }
+
+        match (self, b) {
+            // an empty container equals an empty tuple
+            (Tuple(a), Cntr(b)) if b.is_empty() => a.len().cmp(&0),
+            (Cntr(a), Tuple(b)) if a.is_empty() => 0.cmp(&b.len()),
+            (Bool(a), Bool(b)) => a.cmp(b),
+            (Num(a), Num(b)) => a.cmp(b),
+            (Str(a), Str(b)) => a.cmp(b),
+            (Barr(a), Barr(b)) => a.cmp(b),
+            (Tuple(a), Tuple(b)) => a.cmp(b),
+            (Cntr(a), Cntr(b)) => a.cmp(b),
+            (Seq(a), Seq(b)) => a.cmp(b),
+            (Map(a), Map(b)) => a.cmp(b),
+            (a, b) => rank(a).cmp(&rank(b)),
+        }
+    }
+}
+
 /// The field name in a container contains invalid characters.
 #[derive(PartialEq, Debug, Eq, Clone)]
 pub struct InvalidFieldName(pub Cow<'static, str>);
-- 
2.43.0


From dd9708e507fdf8ec7145a20de6c078251eb81cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:13 +0000
Subject: [PATCH 18/32] fix: decode types without elements from parsed text

Empty arrays, structures, and variants are written as '()'. That is
parsed as a unit or an empty tuple, which the decoder did not accept.
---
 src/encode/decoder.rs | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 9d8da14..78b3941 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -183,8 +183,30 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
 
     forward_to_deserialize_any! {
         bool str string
-        bytes byte_buf option unit newtype_struct seq tuple
-        tuple_struct map struct identifier ignored_any
+        bytes byte_buf option unit newtype_struct seq
+        map identifier ignored_any
+    }
+
+    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, visitor: V) -> Res<V::Value> {
+        self.deserialize_elements(len, visitor)
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        len: usize,
+        visitor: V,
+    ) -> Res<V::Value> {
+        self.deserialize_elements(len, visitor)
+    }
+
+    fn deserialize_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        fields: &'static [&'static str],
+        visitor: V,
+    ) -> Res<V::Value> {
+        self.deserialize_elements(fields.len(), visitor)
     }
 
     de_integer! { unsigned =>
@@ -236,6 +258,7 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
         visitor: V,
     ) -> Res<V::Value> {
         match self.0.val {
+            Value::Unit => visitor.visit_unit(),
             Value::Tuple(seq) if seq.is_empty() => visitor.visit_unit(),
             x => Err(de::Error::invalid_type(unexp_err(&x), &"unit struct")),
         }
@@ -251,6 +274,18 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
     }
 }
 
+impl<'de> Decoder<'de> {
+    /// Without an identity, anything without elements is parsed as a unit.
+    fn deserialize_elements<V: Visitor<'de>>(self, len: usize, visitor: V) -> Res<V::Value> {
+        match self.0.val {
+            Value::Unit if len == 0 => {
+                visitor.visit_seq(SeqDeserializer::new(std::iter::empty::<Kserd>()))
+            }
+            _ => de::Deserializer::deserialize_any(self, visitor),
+        }
+    }
+}
+
 impl<'de> de::IntoDeserializer<'de, Error> for Kserd<'de> {
     type Deserializer = Decoder<'de>;
     fn into_deserializer(self) -> Decoder<'de> {
@@ -337,6 +372,10 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
                 map.into_iter().map(|(k, v)| (k.inner, v)),
             )),
+            // a container without fields is parsed as a tuple
+            Value::Tuple(seq) if seq.is_empty() => {
+                visitor.visit_seq(SeqDeserializer::new(seq.into_iter()))
+            }
             x => Err(de::Error::invalid_type(
                 unexp_err(&x),
                 &"struct enum variant",
-- 
2.43.0


From b0d46c525a81ef7dd413d99767c61ea82342f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:28 +0000
Subject: [PATCH 19/32] fix: refuse integer text which does not fit in 128 bits

Integers with as many digits as the largest 128 bit integer wrapped around
instead of being refused, and some placements of digit separators panicked.
---
 src/ds/num.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index e16f1e3..a9a2ae4 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -226,13 +226,10 @@ impl fmt::Display for Number {
 impl FromStr for Number {
     type Err = IntoNumberErr;
     fn from_str(s: &str) -> Result<Self, IntoNumberErr> {
-        use ::lexical_core::parse_with_options as parse;
         if s.is_empty() {
             return Err(IntoNumberErr);
         }
 
-        const FMT: u128 = ::lexical_core::format::OCAML_STRING;
-        let options = &::lexical_core::ParseIntegerOptions::new();
         let bytes = s.as_bytes();
         let neg = bytes[0] == b'-';
         let valid_int = bytes
@@ -242,14 +239,14 @@ impl FromStr for Number {
 
         if !valid_int {
             ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr)
-        } else if neg {
-            parse::<i128, FMT>(bytes, options)
-                .map(Int)
-                .map_err(|_| IntoNumberErr)
         } else {
-            parse::<u128, FMT>(bytes, options)
-                .map(Uint)
-                .map_err(|_| IntoNumberErr)
+            // digits can be separated with underscores
+            let digits = s.replace('_', "");
+            if neg {
+                digits.parse().map(Int).map_err(|_| IntoNumberErr)
+            } else {
+                digits.parse().map(Uint).map_err(|_| IntoNumberErr)
+            }
         }
     }
 }
-- 
2.43.0


From bd5d482a28a630d29a7fe2a3029c5d8bf04abc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:56 +0000
Subject: [PATCH 20/32] fix: refuse fields without a name or which start with a
 digit

The parser accepted field names which constructing a container refuses.
---
 src/parse/mod.rs   | 4 ++--
 src/parse/names.rs | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 200aedb..5fe4e3f 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -14,8 +14,8 @@ use names::*;
 use nom::{
     branch::alt,
     bytes::complete::{tag, take_till, take_while, take_while1},
-    character::complete::{alpha1, char, line_ending},
-    combinator::{all_consuming, cut, eof, map, map_parser, opt},
+    character::complete::{alpha1, char, digit1, line_ending},
+    combinator::{all_consuming, cut, eof, map, map_parser, not, opt},
     error::{self, context, ErrorKind, VerboseErrorKind},
     multi::{many0, separated_list0},
     sequence::{preceded, separated_pair, terminated},
diff --git a/src/parse/names.rs b/src/parse/names.rs
index 2b99062..1c49606 100644
--- a/src/parse/names.rs
+++ b/src/parse/names.rs
@@ -33,8 +33,10 @@ pub(super) fn ident<'a, E: CxErr<'a>>(
 }
 
 pub(super) fn field_name<'a, E: CxErr<'a>>(i: &'a str) -> IResult<&'a str, Kstr<'a>, E> {
+    not(digit1)(i)?; // a field name has to exist, and cannot start with a digit
+
     map(
-        take_while(|c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_'),
+        take_while1(|c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_'),
         Kstr::brwed,
     )(i)
 }
-- 
2.43.0


From 7d254bf41d32be8f8a34e58e027456475560550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:44 +0000
Subject: [PATCH 21/32] fix: lay out containers and maps with many entries in
 linear time

The offset of a child was found by stepping through all entries before it,
which made formatting quadratic in the number of fields or map entries.
---
 src/fmt/solver.rs    | 6 +++---
 src/nav/mod.rs       | 1 +
 src/nav/navigator.rs | 8 ++++++--
 src/nav/node.rs      | 5 +++++
 src/nav/value.rs     | 9 +++++++++
 5 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index eb2f580..bf257ea 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -371,7 +371,7 @@ fn concise_parent_child_column(
     match pvalue {
         Primitive => unreachable!("primitie only inline"),
         Tuple(_) | Seq(_) => INDENT,
-        Cntr(m) => INDENT + cntr_field_offset(m, child.idx_in_parent()),
+        Cntr(_) => INDENT + cntr_field_offset(child),
         Map(m) => INDENT + map_entry_offset(m, child, fmts, inline_widths),
     }
 }
@@ -395,8 +395,8 @@ fn verbose_parent_child_column(pvalue: NodeValue, child: &Node) -> usize {
     }
 }
 
-fn cntr_field_offset<'a>(mut map: NamedIter<'a, '_, 'a, 'a>, index: usize) -> usize {
-    let (k, _) = map.nth(index).unwrap();
+fn cntr_field_offset(child: &Node) -> usize {
+    let k = child.field_name().unwrap();
     k.chars().count() + FIELDS_ASSIGNER.chars().count() + 1 // space
 }
 
diff --git a/src/nav/mod.rs b/src/nav/mod.rs
index 1d683ed..b91f9c8 100644
--- a/src/nav/mod.rs
+++ b/src/nav/mod.rs
@@ -49,6 +49,7 @@ pub struct Node<'a, 'k, 'nav, 'node> {
 
 struct NodeInner<'a, 'k> {
     kserd: &'a Kserd<'k>,
+    name: Option<&'a Kstr<'k>>,
     idx: usize,
     parent: Option<usize>,
     value_idx_in_parent: Option<usize>,
diff --git a/src/nav/navigator.rs b/src/nav/navigator.rs
index a9734ce..3ca04a0 100644
--- a/src/nav/navigator.rs
+++ b/src/nav/navigator.rs
@@ -10,7 +10,8 @@ impl<'a, 'k> Navigator<'a, 'k> {
     /// [`Kserd`]: crate::Kserd
     pub fn new(root: &'a Kserd<'k>) -> Self {
         #[derive(Default)]
-        struct Info {
+        struct Info<'a, 'k> {
+            name: Option<&'a Kstr<'k>>,
             parent: Option<usize>,
             value_idx_in_parent: Option<usize>,
             key_idx_in_parent: Option<usize>,
@@ -26,6 +27,7 @@ impl<'a, 'k> Navigator<'a, 'k> {
             let len = inner.len();
 
             let Info {
+                name,
                 parent,
                 value_idx_in_parent,
                 key_idx_in_parent,
@@ -33,6 +35,7 @@ impl<'a, 'k> Navigator<'a, 'k> {
 
             inner.push(NodeInner {
                 kserd: node,
+                name,
                 idx: len,
                 parent,
                 value_idx_in_parent,
@@ -57,9 +60,10 @@ impl<'a, 'k> Navigator<'a, 'k> {
                     }
                 }
                 Value::Cntr(v) => {
-                    for (i, n) in v.values().enumerate().rev() {
+                    for (i, (name, n)) in v.iter().enumerate().rev() {
                         stack.push((
                             Info {
+                                name: Some(name),
                                 parent,
                                 value_idx_in_parent: Some(i),
                                 ..Info::default()
diff --git a/src/nav/node.rs b/src/nav/node.rs
index b5f818f..ecf7982 100644
--- a/src/nav/node.rs
+++ b/src/nav/node.rs
@@ -122,6 +122,11 @@ impl<'a, 'k, 'nav: 'node, 'node> Node<'a, 'k, 'nav, 'node> {
             .unwrap_or(0)
     }
 
+    /// The field name, if the parent is a container.
+    pub(crate) fn field_name(&self) -> Option<&'a Kstr<'k>> {
+        self.node.name
+    }
+
     /// The underlying [`Kserd`](crate::Kserd).
     pub fn kserd(&self) -> &'a Kserd<'k> {
         self.node.kserd
diff --git a/src/nav/value.rs b/src/nav/value.rs
index 289789a..2798a01 100644
--- a/src/nav/value.rs
+++ b/src/nav/value.rs
@@ -123,4 +123,13 @@ impl<'a: 'node, 'k: 'node, 'nav: 'node, 'node> Iterator for KeyedIter<'a, 'k, 'n
             None
         }
     }
+
+    fn nth(&mut self, n: usize) -> Option<Self::Item> {
+        if n > 0 {
+            // skip straight to the entry
+            self.keys.nth(n - 1);
+            self.values.nth(n - 1);
+        }
+        self.next()
+    }
 }
-- 
2.43.0


From 3674c4dffdc1c650c54428ba1eebc894ee4527d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:33 +0000
Subject: [PATCH 22/32] fix: read fields whose name starts with str in entries
 of verbose sequences

---
 src/parse/cntr.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index 99598c2..f60a9de 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -230,10 +230,15 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
             // a map as the usual delimited kserd, followed by the colon.
 
             // get the key (kserd-concise:)
-            let (i, key) = opt(terminated(
-                ignore_inline_whitespace(uncut(kserd_concise)),
-                ignore_inline_whitespace(char(':')),
-            ))(i)?;
+            // a field is not a key, even if its name starts like a string with a delimiter
+            let (i, key) = if recognise_field_assign(inline_whitespace::<E>(i)?.0) {
+                (i, None)
+            } else {
+                opt(terminated(
+                    ignore_inline_whitespace(uncut(kserd_concise)),
+                    ignore_inline_whitespace(char(':')),
+                ))(i)?
+            };
 
             if let Some(key) = key {
                 let (i, value) = context(
-- 
2.43.0


From 7efca45fb644fe39ab8a477918b16e29329b3b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:15 +0000
Subject: [PATCH 23/32] fix: refuse to decode more elements than the type takes

Decoding a tuple or sequence into a shorter tuple, tuple struct or
struct silently dropped the elements that were left over.
---
 src/encode/decoder.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 78b3941..9402dd2 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -169,14 +169,14 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
             Value::Tuple(mut seq) => match (seq.len(), id.as_ref().map(|x| x.as_str())) {
                 (0, Some("None")) => visitor.visit_none(),
                 (1, Some("Some")) => visitor.visit_some(Decoder(seq.pop().expect("only one item"))),
-                (1, None) => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+                (1, None) => visit_elements(seq, visitor),
                 (1, _) => visitor.visit_newtype_struct(Decoder(seq.pop().expect("only one item"))),
-                _ => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+                _ => visit_elements(seq, visitor),
             },
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
                 map.into_iter().map(|(k, v)| (k.inner, v)),
             )),
-            Value::Seq(seq) => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+            Value::Seq(seq) => visit_elements(seq, visitor),
             Value::Map(map) => visitor.visit_map(MapDeserializer::new(map.into_iter())),
         }
     }
@@ -386,6 +386,13 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
 
 ////// FUNCTIONS ///////////////////////////////////////////////////////////////
 
+/// Errors if the visitor leaves elements unread.
+fn visit_elements<'de, V: Visitor<'de>>(seq: Vec<Kserd<'de>>, visitor: V) -> Res<V::Value> {
+    let mut de = SeqDeserializer::new(seq.into_iter());
+    let value = visitor.visit_seq(&mut de)?;
+    de.end().map(|_| value)
+}
+
 fn unexp_err<'a, 'v>(val: &'a Value<'v>) -> Unexpected<'a> {
     match val {
         Value::Unit => Unexpected::Unit,
-- 
2.43.0


From dc09bf7f614a961db5839df74ebb552169d7d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:24 +0000
Subject: [PATCH 24/32] fix: decode borrowed field names into borrowed types

A container decoded into a map with borrowed keys failed, even if the
names were borrowed.
---
 src/encode/decoder.rs | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 9402dd2..0e845fb 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -174,7 +174,7 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
                 _ => visit_elements(seq, visitor),
             },
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
-                map.into_iter().map(|(k, v)| (k.inner, v)),
+                map.into_iter().map(|(k, v)| (FieldName(k), v)),
             )),
             Value::Seq(seq) => visit_elements(seq, visitor),
             Value::Map(map) => visitor.visit_map(MapDeserializer::new(map.into_iter())),
@@ -293,6 +293,42 @@ impl<'de> de::IntoDeserializer<'de, Error> for Kserd<'de> {
     }
 }
 
+/// The name of a container's field, borrowed names can be decoded into borrowed types.
+struct FieldName<'de>(Kstr<'de>);
+
+impl<'de> de::Deserializer<'de> for FieldName<'de> {
+    type Error = Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
+        match self.0.inner {
+            Borrowed(v) => visitor.visit_borrowed_str(v),
+            Owned(v) => visitor.visit_string(v),
+        }
+    }
+
+    fn deserialize_enum<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Res<V::Value> {
+        visitor.visit_enum(self.0.inner.into_deserializer())
+    }
+
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
+        bytes byte_buf option unit unit_struct newtype_struct seq tuple
+        tuple_struct map struct identifier ignored_any
+    }
+}
+
+impl<'de> de::IntoDeserializer<'de, Error> for FieldName<'de> {
+    type Deserializer = Self;
+    fn into_deserializer(self) -> Self {
+        self
+    }
+}
+
 impl<'de> de::EnumAccess<'de> for Decoder<'de> {
     type Error = Error;
     type Variant = Decoder<'de>;
@@ -370,7 +406,7 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
     {
         match self.0.val {
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
-                map.into_iter().map(|(k, v)| (k.inner, v)),
+                map.into_iter().map(|(k, v)| (FieldName(k), v)),
             )),
             // a container without fields is parsed as a tuple
             Value::Tuple(seq) if seq.is_empty() => {
-- 
2.43.0


From de3649bc011b2ef5328135f6f89b7f58188b314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:31 +0000
Subject: [PATCH 25/32] fix: round integers once when decoding into f32

Going through f64 gave the wrong neighbour for some large integers.
---
 src/encode/decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 0e845fb..15a6962 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -225,7 +225,12 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
     }
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
         match self.0.val {
-            Value::Num(n) => visitor.visit_f32(n.as_f64() as f32),
+            // integers are not converted by way of f64, it would round twice
+            Value::Num(n) => visitor.visit_f32(match n {
+                Number::Uint(n) => n as f32,
+                Number::Int(n) => n as f32,
+                Number::Float(n) => n as f32,
+            }),
             x => Err(de::Error::invalid_type(unexp_err(&x), &stringify!($t))),
         }
     }
-- 
2.43.0


From bd9ba824a4c85a0c84f6f3aa39d7eca2929e750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:22 +0000
Subject: [PATCH 26/32] fix: count identities, map spaces and strings as
 written for the width limit

---
 src/fmt/solver.rs | 35 +++++++----------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index bf257ea..ad6e2fe 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -54,39 +54,17 @@ fn inline_widths_recurse(
 fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
     let ident = node.id().map(|x| x.chars().count()).unwrap_or(0);
 
-    let prim_ident_width = if config.id_on_primitives {
-        ident + 3 // add three for '<> '
-    } else {
-        0
-    };
-
     match &node.val {
-        Value::Unit => {
-            if ident > 0 {
-                ident
-            } else {
-                2 // for ()
-            }
-        }
-        Value::Bool(v) => {
-            prim_ident_width
-                + if *v {
-                    4 // true
-                } else {
-                    5 // false
-                }
-        }
-        Value::Num(v) => prim_ident_width + v.to_string().chars().count(),
-        Value::Str(v) => 2 + prim_ident_width + v.escape_default().count(), // plus two for quotations
-        Value::Barr(bytes) => {
-            3 + prim_ident_width
-                + bytes.len() * 2
-                + bytes.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count()
+        Value::Unit | Value::Bool(_) | Value::Num(_) | Value::Str(_) | Value::Barr(_) => {
+            prims::write(String::new(), node, config.id_on_primitives)
+                .chars()
+                .map(|c| if c == '\n' { 2 } else { 1 }) // a line end counts as if escaped
+                .sum()
         }
         Value::Tuple(v) => {
             2 + v.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count()
                 + if ident > 0 && config.id_on_tuples {
-                    ident + 1 // for space after name
+                    ident // no space after name
                 } else {
                     0
                 }
@@ -113,6 +91,7 @@ fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
         Value::Map(v) => {
             2 // brackets
 			+ v.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count() // separator
+			+ if v.is_empty() { 0 } else { 2 } // spaces inside brackets
 			+ v.len() * (KEYS_ASSIGNER.chars().count() + 1) // assign, plus space after			
 			+ if ident > 0 &&  config.id_on_maps {
 				ident + 1 // for space after name
-- 
2.43.0


From 9cd8322fdb89869f42f4dbd80c9e167ead4c41ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:16 +0000
Subject: [PATCH 27/32] fix: prefer one line over a headed layout whenever one
 line fits

---
 src/fmt/solver.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index ad6e2fe..40283a8 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -410,12 +410,12 @@ fn min_line_repr(
     concise_widths: &[usize],
 ) -> Repr {
     if let Some(lim) = lim {
-        if concise_widths[idx] > lim {
-            Repr::Verbose
-        } else if inline_widths[idx] > lim {
+        if inline_widths[idx] <= lim {
+            Repr::Inline
+        } else if concise_widths[idx] <= lim {
             Repr::Concise
         } else {
-            Repr::Inline
+            Repr::Verbose
         }
     } else {
         Repr::Inline
-- 
2.43.0


From 04d78eafe205116600e0f68634a4d61633f3aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:24 +0000
Subject: [PATCH 28/32] fix: count empty values and tuple names as written for
 the concise width

---
 src/fmt/solver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index 40283a8..eb04ce5 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -215,9 +215,13 @@ fn concise_width(node: &Kserd, config: &FormattingConfig) -> usize {
         Value::Unit | Value::Bool(_) | Value::Num(_) | Value::Str(_) | Value::Barr(_) => {
             inline_width(node, config)
         } // same as inline width
+        // nothing to put on lines of its own, stays inline
+        Value::Tuple(v) | Value::Seq(v) if v.is_empty() => inline_width(node, config),
+        Value::Cntr(v) if v.is_empty() => inline_width(node, config),
+        Value::Map(v) if v.is_empty() => inline_width(node, config),
         Value::Tuple(_) => {
             1 + if config.id_on_tuples {
-                ident + 1 // for space after name
+                ident // no space after name
             } else {
                 0
             }
-- 
2.43.0


From aa8f8f04a47c55e7a857a72dcb6e9284dbe9409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:33 +0000
Subject: [PATCH 29/32] fix: count the indent below headed sequences for the
 width limit

---
 src/fmt/solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index eb04ce5..a0ac22f 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -365,7 +365,7 @@ fn verbose_parent_child_column(pvalue: NodeValue, child: &Node) -> usize {
     match (pvalue, child.value()) {
         (Primitive, _) => unreachable!("primitive cannot be verbose"),
         (Tuple(_), _) => unreachable!("tuple cannot be verbose"),
-        (Seq(_), _) => 0,
+        (Seq(_), _) => INDENT,
         (Cntr(_), Cntr(_)) => INDENT,
         (Cntr(_), _) => 0,
         (Map(_), _) => {
-- 
2.43.0


From 4f3cbc09f27c83e7281bdb22b20dd8f6c26f018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:11 +0000
Subject: [PATCH 30/32] fix: read floats without undefined behaviour

The fast-float crate computes pointers past the end of short input, which is
undefined behaviour on safe calls. The standard library reads the same texts to
the same floats.
---
 src/ds/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index a9a2ae4..592c8de 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -238,7 +238,7 @@ impl FromStr for Number {
             .all(|b| b.is_ascii_digit() || *b == b'_');
 
         if !valid_int {
-            ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr)
+            s.parse().map(Float).map_err(|_| IntoNumberErr)
         } else {
             // digits can be separated with underscores
             let digits = s.replace('_', "");
-- 
2.43.0


From 7628943a5f05d545f374837ebf8f04f25351edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:34:39 +0000
Subject: [PATCH 31/32] fix: name f32 and f64 as the expected types in decoding
 errors

The messages said "expected $t", as the macro variable was used outside of
the macro.
---
 src/encode/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 15a6962..d837dbe 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -231,13 +231,13 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
                 Number::Int(n) => n as f32,
                 Number::Float(n) => n as f32,
             }),
-            x => Err(de::Error::invalid_type(unexp_err(&x), &stringify!($t))),
+            x => Err(de::Error::invalid_type(unexp_err(&x), &"f32")),
         }
     }
     fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
         match self.0.val {
             Value::Num(n) => visitor.visit_f64(n.as_f64()),
-            x => Err(de::Error::invalid_type(unexp_err(&x), &stringify!($t))),
+            x => Err(de::Error::invalid_type(unexp_err(&x), &"f64")),
         }
     }
 
-- 
2.43.0


From 8db4d304993b77b97c8e413eef52e2191fa0b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:49 +0000
Subject: [PATCH 32/32] fix: do not report large integers as 0 in decoding
 errors

Integers beyond 64 bits were shown as 0 when a value of another kind was
expected.
---
 src/encode/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index d837dbe..edcd569 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -435,12 +435,14 @@ fn visit_elements<'de, V: Visitor<'de>>(seq: Vec<Kserd<'de>>, visitor: V) -> Res
 }
 
 fn unexp_err<'a, 'v>(val: &'a Value<'v>) -> Unexpected<'a> {
+    const BIG_INT: Unexpected<'static> = Unexpected::Other("128-bit integer");
+
     match val {
         Value::Unit => Unexpected::Unit,
         Value::Bool(v) => Unexpected::Bool(*v),
         Value::Num(n) => match n {
-            Number::Uint(n) => Unexpected::Unsigned((*n).try_into().unwrap_or_default()),
-            Number::Int(n) => Unexpected::Signed((*n).try_into().unwrap_or_default()),
+            Number::Uint(n) => (*n).try_into().map_or(BIG_INT, Unexpected::Unsigned),
+            Number::Int(n) => (*n).try_into().map_or(BIG_INT, Unexpected::Signed),
             Number::Float(n) => Unexpected::Float(*n),
         },
         Value::Str(v) => Unexpected::Str(v.as_str()),
-- 
2.43.0

