From d1ba27dd12e3da7e9e52d9171384d7606c9ecdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 01/14] fix: do not panic on characters that lower-case to
 ASCII letters

load_mtl("\u{212A}a 1 1 1") panicked: nom's str tag_no_case compares
lower-cased characters but splits at the tag's byte length, which need not
be a character boundary. Compare ASCII case only.
---
 src/tokenizer/mod.rs | 14 +++++++++++++-
 src/tokenizer/mtl.rs |  4 ++--
 src/tokenizer/obj.rs |  4 ++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 6b5ab60..9e001fc 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -15,7 +15,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::digit1,
     combinator::{map, opt},
-    error::Error,
+    error::{Error, ErrorKind},
     multi::{fold_many0, fold_many1},
     Input, Parser,
 };
@@ -568,6 +568,18 @@ impl<'a> Input for TokenSet<'a> {
     }
 }
 
+/// Matches a keyword at the start of the input, ignoring ASCII case. (The
+/// `tag_no_case` of nom panics when a multi-byte character such as U+212A
+/// lower-cases to a letter of the tag.)
+fn tag_no_case<'a>(
+    tag: &'static str,
+) -> impl Parser<&'a str, Output = &'a str, Error = Error<&'a str>> {
+    move |input: &'a str| match input.get(..tag.len()) {
+        Some(word) if word.eq_ignore_ascii_case(tag) => Ok((&input[tag.len()..], word)),
+        _ => Err(nom::Err::Error(Error::new(input, ErrorKind::Tag))),
+    }
+}
+
 fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
     map(
         (
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 47ce969..c8ec788 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{is_not, tag, tag_no_case, take_till},
+    bytes::{is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1},
         multispace0,
@@ -14,7 +14,7 @@ use nom::{
     Parser,
 };
 
-use super::{Token, TokenSet, TokenizeError};
+use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index ef13c95..2d1fbab 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{complete::is_not, tag, tag_no_case, take_till},
+    bytes::{complete::is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1},
         multispace0,
@@ -14,7 +14,7 @@ use nom::{
     Parser,
 };
 
-use super::{Token, TokenSet, TokenizeError};
+use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
-- 
2.43.0


From fda9d06aa9939d77de78f857fea8afda0491ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:30 +0000
Subject: [PATCH 02/14] fix: report an error instead of returning the
 statements before a bad one

The statement loops of both parsers stopped silently at the first token
they could not parse and returned Ok with everything after it missing.
---
 src/material.rs | 8 +++++++-
 src/model.rs    | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 1c56d41..4c86857 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -414,7 +414,13 @@ enum MaterialElement {
 
 pub(crate) fn parse(input: TokenSet<'_>) -> Result<Vec<Material>, MaterialError> {
     let elements: Vec<MaterialElement> = match parse_material_set().parse_complete(input) {
-        Ok((_, x)) => x,
+        Ok((rest, x)) if rest.is_empty() => x,
+        Ok((rest, _)) => {
+            return Err(MaterialError::Parse(format!(
+                "unexpected token {:?}",
+                rest.as_ref()[0]
+            )))
+        },
         Err(e) => return Err(MaterialError::Parse(e.to_string())),
     };
 
diff --git a/src/model.rs b/src/model.rs
index 567e016..cbb3a1c 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -301,7 +301,11 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
     )
     .parse_complete(input)
     {
-        Ok((_, acc)) => Ok(acc),
+        Ok((rest, acc)) if rest.is_empty() => Ok(acc),
+        Ok((rest, _)) => Err(ModelError::Parse(format!(
+            "unexpected token {:?}",
+            rest.as_ref()[0]
+        ))),
         Err(e) => Err(ModelError::Parse(e.to_string())),
     }
 }
-- 
2.43.0


From bc83056169fbbb70c76737e8fe72b0be38593b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:22 +0000
Subject: [PATCH 03/14] fix: read every number literal as its value

1e5 (an exponent without a point) was not a number, whole numbers beyond
i32 and a lone point were read as 0, and -2147483648 became 0.
---
 src/tokenizer/mod.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 9e001fc..e8081ae 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -14,7 +14,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::digit1,
-    combinator::{map, opt},
+    combinator::{map, map_opt, opt},
     error::{Error, ErrorKind},
     multi::{fold_many0, fold_many1},
     Input, Parser,
@@ -590,18 +590,19 @@ fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             }),
         ),
         |(sign, s): (Option<&str>, Vec<&str>)| {
-            let mut val = s.join("").parse::<i32>().unwrap_or_default();
-            if sign == Some("-") {
-                val *= -1;
+            let val = format!("{}{}", sign.unwrap_or_default(), s.join(""));
+            match val.parse() {
+                Ok(i) => Token::Int(i),
+                // Too large for an integer, but still a number
+                Err(_) => Token::Float(val.parse().unwrap_or_default()),
             }
-            Token::Int(val)
         },
     )
 }
 
 #[allow(clippy::type_complexity)]
 fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
-    map(
+    map_opt(
         (
             opt(alt((tag("+"), tag("-")))),
             alt((
@@ -637,16 +638,11 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
                 ),
                 map(
                     (
-                        opt(fold_many1(digit1, Vec::new, |mut acc: Vec<_>, item| {
-                            acc.push(item);
-                            acc
-                        })),
-                        tag("."),
                         fold_many1(digit1, Vec::new, |mut acc: Vec<_>, item| {
                             acc.push(item);
                             acc
                         }),
-                        opt(map(
+                        map(
                             (
                                 alt((tag("e"), tag("E"))),
                                 opt(alt((tag("+"), tag("-")))),
@@ -661,9 +657,9 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
                                 acc.push_str(digits);
                                 acc
                             },
-                        )),
+                        ),
                     ),
-                    |(f, _, s, e)| (f.unwrap_or_default(), s, e.unwrap_or_default()),
+                    |(f, e)| (f, Vec::new(), e),
                 ),
             )),
         ),
@@ -679,11 +675,11 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             if !e.is_empty() {
                 acc.push(e.as_str());
             }
-            let mut val = acc.join("").parse::<f32>().unwrap_or_default();
+            let mut val = acc.join("").parse::<f32>().ok()?;
             if sign == Some("-") {
                 val *= -1.0;
             }
-            Token::Float(val)
+            Some(Token::Float(val))
         },
     )
 }
-- 
2.43.0


From 17ae4e56b95ad73d8cddc7c9c7390f812b72423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:28 +0000
Subject: [PATCH 04/14] fix: do not split words that begin with digits, dots or
 signs into numbers

mtllib ./foo.mtl and map_Kd 1.png were read as a number followed by the
rest of the name.
---
 src/tokenizer/mod.rs | 13 +++++++++++++
 src/tokenizer/mtl.rs |  6 +++---
 src/tokenizer/obj.rs |  6 +++---
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index e8081ae..81b9193 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -580,6 +580,19 @@ fn tag_no_case<'a>(
     }
 }
 
+/// Succeeds where a number may end: at the end of the input, or in front of
+/// one of the given characters. Otherwise it is the beginning of a word.
+fn number_end<'a>(
+    delimiters: &'static str,
+) -> impl Parser<&'a str, Output = (), Error = Error<&'a str>> {
+    move |input: &'a str| match input.chars().next() {
+        Some(c) if !delimiters.contains(c) => {
+            Err(nom::Err::Error(Error::new(input, ErrorKind::Digit)))
+        },
+        _ => Ok((input, ())),
+    }
+}
+
 fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
     map(
         (
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index c8ec788..52a3b97 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -10,7 +10,7 @@ use nom::{
     },
     combinator::map,
     multi::fold_many0,
-    sequence::{delimited, preceded},
+    sequence::{delimited, preceded, terminated},
     Parser,
 };
 
@@ -67,8 +67,8 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 ),
                 map(multispace1, |_| Token::Ignore),
             ),
-            super::parse_float(),
-            super::parse_digit(),
+            terminated(super::parse_float(), super::number_end(" \t\r\n#")),
+            terminated(super::parse_digit(), super::number_end(" \t\r\n#")),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 2d1fbab..fa1b4b0 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -10,7 +10,7 @@ use nom::{
     },
     combinator::map,
     multi::fold_many0,
-    sequence::{delimited, preceded},
+    sequence::{delimited, preceded, terminated},
     Parser,
 };
 
@@ -49,8 +49,8 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 map(multispace1, |_| Token::Ignore),
             ),
             map(tag("/"), |_| Token::Slash),
-            super::parse_float(),
-            super::parse_digit(),
+            terminated(super::parse_float(), super::number_end(" \t\r\n#/")),
+            terminated(super::parse_digit(), super::number_end(" \t\r\n#/")),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
-- 
2.43.0


From a3882b8e0a40d78edbde46f1afdb9810607cc8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 05/14] fix: do not keep blanks after a name as part of the
 name

A name followed by trailing blanks in a model file, or by a tab in a
material file, was reported with them.
---
 src/tokenizer/mtl.rs | 2 +-
 src/tokenizer/obj.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 52a3b97..12fe065 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -74,7 +74,7 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not(" \r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
+            map(is_not(" \t\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
         )),
         Vec::new,
         |mut acc: Vec<Token>, item| {
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index fa1b4b0..3ffa33e 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -56,7 +56,7 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not("\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
+            map(is_not("\r\n"), |s: &str| Token::String(Cow::Borrowed(s.trim_end_matches([' ', '\t'])))),
         )),
         Vec::new,
         |mut acc: Vec<Token>, item| {
-- 
2.43.0


From 6603e6496dfadfa611348dfadd3d00ae94ba8e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 06/14] fix: accept names that look like numbers or keywords

g 1, usemtl f, shadow_obj 2.obj, newmtl 1 and the like were refused (or cut
the file short), because the name was read as a number or as a statement.
---
 src/tokenizer/mtl.rs | 30 +++++++++++++++++++++++++-----
 src/tokenizer/obj.rs | 43 ++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 63 insertions(+), 10 deletions(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 12fe065..0f0283d 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -5,10 +5,11 @@ use nom::{
     branch::alt,
     bytes::{is_not, tag, take_till},
     character::{
-        complete::{line_ending, multispace1},
+        complete::{line_ending, multispace1, space1},
         multispace0,
     },
-    combinator::map,
+    combinator::{map, not},
+    error::Error,
     multi::fold_many0,
     sequence::{delimited, preceded, terminated},
     Parser,
@@ -18,7 +19,7 @@ use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
-        alt((
+        alt((name_statement(), map(alt((
             delimited(
                 multispace0(),
                 map(
@@ -75,9 +76,12 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
             map(is_not(" \t\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
-        )),
+        )), |token| (Token::Ignore, token)))),
         Vec::new,
-        |mut acc: Vec<Token>, item| {
+        |mut acc: Vec<Token>, (keyword, item)| {
+            if keyword != Token::Ignore {
+                acc.push(keyword);
+            }
             if item != Token::Ignore {
                 acc.push(item);
             }
@@ -91,6 +95,22 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     }
 }
 
+/// The newmtl keyword and the name after it on the same line, also when the
+/// name looks like a number or a keyword.
+fn name_statement<'a>(
+) -> impl Parser<&'a str, Output = (Token<'a>, Token<'a>), Error = Error<&'a str>> {
+    map(
+        (
+            preceded(multispace0(), tag_no_case("newmtl")),
+            space1,
+            preceded(not(tag("#")), is_not(" \t\r\n")),
+        ),
+        |(keyword, _, name): (&str, _, &str)| {
+            (kw_map(keyword), Token::String(Cow::Borrowed(name)))
+        },
+    )
+}
+
 fn kw_map(value: &str) -> Token<'_> {
     match value.to_lowercase().as_ref() {
         "newmtl" => Token::NewMaterial,
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 3ffa33e..25c6a2b 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -5,10 +5,11 @@ use nom::{
     branch::alt,
     bytes::{complete::is_not, tag, take_till},
     character::{
-        complete::{line_ending, multispace1},
+        complete::{line_ending, multispace1, space1},
         multispace0,
     },
-    combinator::map,
+    combinator::{map, not},
+    error::Error,
     multi::fold_many0,
     sequence::{delimited, preceded, terminated},
     Parser,
@@ -18,7 +19,7 @@ use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
-        alt((
+        alt((name_statement(), map(alt((
             delimited(
                 multispace0(),
                 map(
@@ -57,9 +58,12 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
             map(is_not("\r\n"), |s: &str| Token::String(Cow::Borrowed(s.trim_end_matches([' ', '\t'])))),
-        )),
+        )), |token| (Token::Ignore, token)))),
         Vec::new,
-        |mut acc: Vec<Token>, item| {
+        |mut acc: Vec<Token>, (keyword, item)| {
+            if keyword != Token::Ignore {
+                acc.push(keyword);
+            }
             if item != Token::Ignore {
                 acc.push(item);
             }
@@ -73,6 +77,35 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     }
 }
 
+/// A keyword and the name after it on the same line. The name is the rest of
+/// the line, also when it looks like a number or a keyword.
+fn name_statement<'a>(
+) -> impl Parser<&'a str, Output = (Token<'a>, Token<'a>), Error = Error<&'a str>> {
+    map(
+        (
+            preceded(
+                multispace0(),
+                alt([
+                    tag_no_case("mtllib"),
+                    tag_no_case("usemtl"),
+                    tag_no_case("shadow_obj"),
+                    tag_no_case("trace_obj"),
+                    tag_no_case("maplib"),
+                    tag_no_case("usemap"),
+                    tag_no_case("o"),
+                    tag_no_case("g"),
+                ]),
+            ),
+            space1,
+            preceded(not(tag("#")), is_not("\r\n")),
+        ),
+        |(keyword, _, name): (&str, _, &str)| {
+            let name = name.trim_end_matches([' ', '\t']);
+            (kw_map(keyword), Token::String(Cow::Borrowed(name)))
+        },
+    )
+}
+
 fn kw_map(value: &str) -> Token<'_> {
     match value.to_lowercase().as_ref() {
         "mtllib" => Token::MaterialLib,
-- 
2.43.0


From eea4ac1239219dd0dea61d7930e9b5b704b4560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 07/14] fix: refuse a texture map statement with more than one
 file name

The statement after an unsupported one (map_Bump b.png) was swallowed as
options and its file name replaced the one of the map before it.
---
 src/material.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 4c86857..b978fcd 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    combinator::{map, opt},
+    combinator::{map, opt, verify},
     error,
     multi::many1,
     sequence::preceded,
@@ -761,7 +761,7 @@ fn parse_anti_alias_map<'a>(
 
 fn parse_options<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Vec<OptionElement>, Error = error::Error<TokenSet<'a>>> {
-    many1(alt((
+    verify(many1(alt((
         parse_option_blend(),
         parse_option_bm(),
         parse_option_cc(),
@@ -783,7 +783,10 @@ fn parse_options<'a>(
             };
             OptionElement::FileName(name.into())
         }),
-    )))
+    ))), |options: &[OptionElement]| {
+        let is_name = |o: &&OptionElement| matches!(o, OptionElement::FileName(_));
+        options.iter().filter(is_name).count() <= 1
+    })
 }
 
 fn parse_option_blend<'a>(
-- 
2.43.0


From 20401085ca08ae76d0c2fb6b774556ba4fc04368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 08/14] fix: read references with trailing slashes as the
 vertex alone

f 1/ 2/ 3/ took the next vertex for the texture of the one before it; the
repository's ignored tests for it now pass.
---
 src/model.rs         | 6 ++++--
 src/tokenizer/mod.rs | 2 ++
 src/tokenizer/obj.rs | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index cbb3a1c..487d34d 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -452,8 +452,9 @@ pub(crate) fn parse_face<'a>(
                         token_match!(Token::Slash),
                         opt(token_match!(Token::Int(_))),
                     )),
+                    opt(token_match!(Token::TrailingSlash)),
                 ),
-                |(v, t, n)| {
+                |(v, t, n, _)| {
                     let v = match get_token_int(&v) {
                         Ok(s) => s,
                         Err(e) => {
@@ -506,8 +507,9 @@ pub(crate) fn parse_line<'a>(
                         token_match!(Token::Slash),
                         opt(token_match!(Token::Int(_))),
                     )),
+                    opt(token_match!(Token::TrailingSlash)),
                 ),
-                |(v, t)| {
+                |(v, t, _)| {
                     let v = match get_token_int(&v) {
                         Ok(s) => s,
                         Err(e) => {
diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 81b9193..3564311 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -36,6 +36,8 @@ pub enum Token<'a> {
     Float(f32),
     Int(i32),
     Slash,
+    /// Slashes at the end of a reference with the rest left out, as in `1/`
+    TrailingSlash,
 
     // Obj
     /// List of geometric vertices, with (x, y, z [,w]) coordinates, w is
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 25c6a2b..b666767 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{complete::is_not, tag, take_till},
+    bytes::{complete::is_a, complete::is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1, space1},
         multispace0,
@@ -49,6 +49,7 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 ),
                 map(multispace1, |_| Token::Ignore),
             ),
+            map((is_a("/"), super::number_end(" \t\r\n#")), |_| Token::TrailingSlash),
             map(tag("/"), |_| Token::Slash),
             terminated(super::parse_float(), super::number_end(" \t\r\n#/")),
             terminated(super::parse_digit(), super::number_end(" \t\r\n#/")),
-- 
2.43.0


From 877d8bd631c0003ab9b0dc33d95f39fcf7f188e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 09/14] fix: resolve negative references against the data read
 so far

They were reported as written, which the index fields (1-based) do not
allow for; the repository's ignored test cube_test_minus now passes.
---
 src/model.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 487d34d..ae5394b 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -245,18 +245,30 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Texture(t) => model.textures.push(t),
                 ModelElement::Face(mut f) => {
                     f.smoothing_group = model.current_smoothing_group;
+                    for e in &mut f.elements {
+                        e.vertex_index = resolve_index(e.vertex_index, model.vertices.len());
+                        e.texture_index = e.texture_index.map(|i| resolve_index(i, model.textures.len()));
+                        e.normal_index = e.normal_index.map(|i| resolve_index(i, model.normals.len()));
+                    }
                     for g in &model.current_group {
                         let set = model.faces.entry(g.clone()).or_default();
                         set.push(f.clone());
                     }
                 },
-                ModelElement::Line(l) => {
+                ModelElement::Line(mut l) => {
+                    for e in &mut l.elements {
+                        e.vertex_index = resolve_index(e.vertex_index, model.vertices.len());
+                        e.texture_index = e.texture_index.map(|i| resolve_index(i, model.textures.len()));
+                    }
                     for g in &model.current_group {
                         let set = model.lines.entry(g.clone()).or_default();
                         set.push(l.clone());
                     }
                 },
-                ModelElement::Point(p) => {
+                ModelElement::Point(mut p) => {
+                    for i in &mut p.elements {
+                        *i = resolve_index(*i, model.vertices.len());
+                    }
                     for g in &model.current_group {
                         let set = model.points.entry(g.clone()).or_default();
                         set.push(p.clone());
@@ -310,6 +322,17 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
     }
 }
 
+/// Turns a reference relative to the data read so far (-1 is the latest entry)
+/// into an absolute one.
+fn resolve_index(index: i32, count: usize) -> i32 {
+    let absolute = count as i64 + 1 + index as i64;
+    if index < 0 && absolute > 0 {
+        absolute as i32
+    } else {
+        index
+    }
+}
+
 pub(crate) fn parse_vertex<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Vertex, Error = error::Error<TokenSet<'a>>> {
     map(
-- 
2.43.0


From 387638b8bf53fe6ed0d4d140b97dd069b91ca855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 10/14] fix: keep the settings of a group that is entered again

Every g statement reset the settings (usemtl, usemap) of the groups it
names, and a name given twice listed every element twice.
---
 src/model.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index ae5394b..ac744f4 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -277,8 +277,10 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Group(groups) => {
                     model.current_group.clear();
                     for g in groups {
-                        model.groups.insert(g.clone(), Default::default());
-                        model.current_group.push(g);
+                        model.groups.entry(g.clone()).or_default();
+                        if !model.current_group.contains(&g) {
+                            model.current_group.push(g);
+                        }
                     }
                 },
                 ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),
-- 
2.43.0


From df45c661736f34d51452198e49796b8d8424b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 11/14] fix: refuse a negative illumination model

illum -1 was reported as 4294967295.
---
 src/material.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material.rs b/src/material.rs
index b978fcd..d1fbaaa 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -639,7 +639,7 @@ fn parse_illumination_model<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = MaterialElement, Error = error::Error<TokenSet<'a>>> {
     preceded(
         token_match!(Token::IlluminationModel),
-        map(token_match!(Token::Int(_)), |f| {
+        map(token_match!(Token::Int(0..)), |f| {
             let f = match get_token_int(&f) {
                 Ok(s) => s,
                 Err(e) => {
-- 
2.43.0


From c27602a53c844b42281c31e543105930ea73361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:04 +0000
Subject: [PATCH 12/14] fix: store bevel, c_interp, d_interp, lod, shadow_obj
 and trace_obj

The statements were parsed and then dropped, so the fields documented for
them were always empty; "on" was read as false, and a level of detail
outside 0 to 100 was accepted.
---
 src/model.rs | 58 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index ac744f4..1d635bc 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -294,12 +294,32 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Smoothing(group_id) => {
                     model.current_smoothing_group = group_id;
                 },
-                ModelElement::Bevel(_flag) => {},
-                ModelElement::CInterp(_flag) => {},
-                ModelElement::DInterp(_flag) => {},
-                ModelElement::Lod(_level) => {},
-                ModelElement::ShadowObj(_name) => {},
-                ModelElement::TraceObj(_name) => {},
+                ModelElement::Bevel(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.bevel = flag;
+                    }
+                },
+                ModelElement::CInterp(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.c_interp = flag;
+                    }
+                },
+                ModelElement::DInterp(flag) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.d_interp = flag;
+                    }
+                },
+                ModelElement::Lod(level) => {
+                    for g in &model.current_group {
+                        let group = model.groups.entry(g.clone()).or_default();
+                        group.lod = level as u8;
+                    }
+                },
+                ModelElement::ShadowObj(name) => model.shadow_obj = Some(name),
+                ModelElement::TraceObj(name) => model.trace_obj = Some(name),
                 ModelElement::TextureLib(libs) => {
                     model.texture_libs.extend(libs);
                 },
@@ -705,7 +725,7 @@ pub(crate) fn parse_bevel<'a>(
     map(
         preceded(token_match!(Token::Bevel), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
+            let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
                 Err(e) => {
                     log::error!("{}", e);
@@ -713,11 +733,7 @@ pub(crate) fn parse_bevel<'a>(
                 },
             };
 
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::Bevel(flag)
-            } else {
-                ModelElement::Bevel(false)
-            }
+            ModelElement::Bevel(res)
         },
     )
 }
@@ -727,7 +743,7 @@ pub(crate) fn parse_c_interp<'a>(
     map(
         preceded(token_match!(Token::CInterp), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
+            let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
                 Err(e) => {
                     log::error!("{}", e);
@@ -735,11 +751,7 @@ pub(crate) fn parse_c_interp<'a>(
                 },
             };
 
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::CInterp(flag)
-            } else {
-                ModelElement::CInterp(false)
-            }
+            ModelElement::CInterp(res)
         },
     )
 }
@@ -749,7 +761,7 @@ pub(crate) fn parse_d_interp<'a>(
     map(
         preceded(token_match!(Token::DInterp), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
+            let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
                 Err(e) => {
                     log::error!("{}", e);
@@ -757,11 +769,7 @@ pub(crate) fn parse_d_interp<'a>(
                 },
             };
 
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::DInterp(flag)
-            } else {
-                ModelElement::DInterp(false)
-            }
+            ModelElement::DInterp(res)
         },
     )
 }
@@ -769,7 +777,7 @@ pub(crate) fn parse_d_interp<'a>(
 pub(crate) fn parse_lod<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::Lod), token_match!(Token::Int(_))),
+        preceded(token_match!(Token::Lod), token_match!(Token::Int(0..=100))),
         |s| {
             let res = match get_token_int(&s) {
                 Ok(s) => s,
-- 
2.43.0


From b87a1c8dae28b8a1747c07d64f6de4a91cbf79d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:41 +0000
Subject: [PATCH 13/14] fix: refuse a word other than on or off as an on/off
 value

It was logged and read as off, so a misspelt switch was lost silently.
---
 src/material.rs | 10 +++++-----
 src/model.rs    | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index d1fbaaa..b5cf4a6 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -746,7 +746,7 @@ fn parse_anti_alias_map<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = MaterialElement, Error = error::Error<TokenSet<'a>>> {
     preceded(
         token_match!(Token::AntiAliasMap),
-        map(token_match!(Token::String(_)), |o| {
+        map(token_match!(ref t if get_on_off_from_str(t).is_ok()), |o| {
             let val = match get_on_off_from_str(&o) {
                 Ok(v) => v,
                 Err(e) => {
@@ -795,7 +795,7 @@ fn parse_option_blend<'a>(
         map(
             preceded(
                 token_match!(Token::OptionBlendU),
-                token_match!(Token::String(_)),
+                token_match!(ref t if get_on_off_from_str(t).is_ok()),
             ),
             |s| {
                 let val = match get_on_off_from_str(&s) {
@@ -811,7 +811,7 @@ fn parse_option_blend<'a>(
         map(
             preceded(
                 token_match!(Token::OptionBlendV),
-                token_match!(Token::String(_)),
+                token_match!(ref t if get_on_off_from_str(t).is_ok()),
             ),
             |s| {
                 let val = match get_on_off_from_str(&s) {
@@ -852,7 +852,7 @@ fn parse_option_cc<'a>(
     map(
         preceded(
             token_match!(Token::OptionColorCorrect),
-            token_match!(Token::String(_)),
+            token_match!(ref t if get_on_off_from_str(t).is_ok()),
         ),
         |s| {
             let val = match get_on_off_from_str(&s) {
@@ -872,7 +872,7 @@ fn parse_option_clamp<'a>(
     map(
         preceded(
             token_match!(Token::OptionClamp),
-            token_match!(Token::String(_)),
+            token_match!(ref t if get_on_off_from_str(t).is_ok()),
         ),
         |s| {
             let val = match get_on_off_from_str(&s) {
diff --git a/src/model.rs b/src/model.rs
index 1d635bc..9b7e7c9 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -723,7 +723,10 @@ pub(crate) fn parse_smoothing<'a>(
 pub(crate) fn parse_bevel<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::Bevel), token_match!(Token::String(_))),
+        preceded(
+            token_match!(Token::Bevel),
+            token_match!(ref t if get_on_off_from_str(t).is_ok()),
+        ),
         |s| {
             let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
@@ -741,7 +744,10 @@ pub(crate) fn parse_bevel<'a>(
 pub(crate) fn parse_c_interp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::CInterp), token_match!(Token::String(_))),
+        preceded(
+            token_match!(Token::CInterp),
+            token_match!(ref t if get_on_off_from_str(t).is_ok()),
+        ),
         |s| {
             let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
@@ -759,7 +765,10 @@ pub(crate) fn parse_c_interp<'a>(
 pub(crate) fn parse_d_interp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
-        preceded(token_match!(Token::DInterp), token_match!(Token::String(_))),
+        preceded(
+            token_match!(Token::DInterp),
+            token_match!(ref t if get_on_off_from_str(t).is_ok()),
+        ),
         |s| {
             let res = match get_on_off_from_str(&s) {
                 Ok(s) => s,
-- 
2.43.0


From bcbb77799f69a198442fe77b27623afc44ea9d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 14/14] fix: do not copy all remaining tokens at every token

---
 src/tokenizer/mod.rs | 52 ++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 3564311..5df6f24 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -5,9 +5,12 @@ mod obj;
 mod test;
 
 use std::borrow::Cow;
+use std::fmt;
 use std::iter::Enumerate;
 use std::ops::Index;
 use std::ops::IndexMut;
+use std::ops::Range;
+use std::rc::Rc;
 
 pub use mtl::parse_mtl;
 use nom::{
@@ -468,48 +471,62 @@ pub enum Token<'a> {
     OptionTextureResolution,
 }
 
-#[derive(Debug, Clone)]
+/// A range of the tokens of a file. The parsers copy and split these at every
+/// token, so the tokens themselves are shared.
+#[derive(Clone)]
 pub struct TokenSet<'a> {
-    tokens: Vec<Token<'a>>,
+    tokens: Rc<Vec<Token<'a>>>,
+    range: Range<usize>,
 }
 
 impl TokenSet<'_> {
     pub fn is_empty(&self) -> bool {
-        self.tokens.is_empty()
+        self.range.is_empty()
     }
 
     pub fn split_at(&self, index: usize) -> (Self, Self) {
-        let (a, b) = self.tokens.split_at(index);
-        (Self { tokens: a.to_vec() }, Self { tokens: b.to_vec() })
+        (self.take(index), self.take_from(index))
     }
 
     pub fn len(&self) -> usize {
-        self.tokens.len()
+        self.range.len()
+    }
+}
+
+impl fmt::Debug for TokenSet<'_> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("TokenSet")
+            .field("tokens", &self.as_ref())
+            .finish()
     }
 }
 
 impl<'a> Index<usize> for TokenSet<'a> {
     type Output = Token<'a>;
     fn index(&self, index: usize) -> &Self::Output {
-        &self.tokens[index]
+        &self.as_ref()[index]
     }
 }
 
 impl IndexMut<usize> for TokenSet<'_> {
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
-        &mut self.tokens[index]
+        let range = self.range.clone();
+        &mut Rc::make_mut(&mut self.tokens)[range][index]
     }
 }
 
 impl<'a> From<Vec<Token<'a>>> for TokenSet<'a> {
     fn from(tokens: Vec<Token<'a>>) -> Self {
-        Self { tokens }
+        Self {
+            range: 0..tokens.len(),
+            tokens: Rc::new(tokens),
+        }
     }
 }
 
-impl<'a> AsRef<Vec<Token<'a>>> for TokenSet<'a> {
-    fn as_ref(&self) -> &Vec<Token<'a>> {
-        &self.tokens
+impl<'a> AsRef<[Token<'a>]> for TokenSet<'a> {
+    fn as_ref(&self) -> &[Token<'a>] {
+        &self.tokens[self.range.clone()]
     }
 }
 
@@ -517,7 +534,7 @@ impl<'a> Iterator for TokenSet<'a> {
     type Item = Token<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.tokens.first().cloned()
+        self.as_ref().first().cloned()
     }
 }
 
@@ -532,13 +549,16 @@ impl<'a> Input for TokenSet<'a> {
 
     fn take(&self, index: usize) -> Self {
         Self {
-            tokens: self.tokens.iter().take(index).cloned().collect(),
+            tokens: self.tokens.clone(),
+            range: self.range.start..self.range.end.min(self.range.start + index),
         }
     }
 
     fn take_from(&self, index: usize) -> Self {
+        assert!(index <= self.len());
         Self {
-            tokens: self.tokens[index..].to_vec(),
+            tokens: self.tokens.clone(),
+            range: self.range.start + index..self.range.end,
         }
     }
 
@@ -550,7 +570,7 @@ impl<'a> Input for TokenSet<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.tokens.iter().position(|t| predicate(t.clone()))
+        self.as_ref().iter().position(|t| predicate(t.clone()))
     }
 
     fn iter_elements(&self) -> Self::Iter {
-- 
2.43.0

