From f1debed2360a69d3946cfebaec70ed0f628aef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 1/7] fix: bound statements by their line and stop dropping the
 rest of the input silently

A statement that could not be parsed ended the parse: everything after it was
discarded and the partial result returned as success. Arguments were also taken
from following lines (an unknown line after 'g'/'mtllib'/'map_*' was swallowed as
a further name). Parse line by line, skip (and log) unsupported statements and
report malformed ones as an error.
---
 src/lib.rs           | 14 ++++++++------
 src/material.rs      | 30 +++++++++++++++++++++++++-----
 src/model.rs         | 16 +++++++++++-----
 src/tokenizer/mod.rs |  9 +++++++++
 4 files changed, 53 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2ae5e77..4b6f1bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -141,10 +141,11 @@ pub enum ObjError {
 /// Returns a `Result` of either ObjError on parse errors
 /// or a constructed `Model`.
 pub fn load_obj(input: &str) -> Result<Model, ObjError> {
-    match tokenizer::parse_obj(input) {
-        Ok(tokens) => Ok(model::parse(tokens)?),
-        Err(e) => Err(e.into()),
+    let mut model = Model::default();
+    for line in input.split(['\n', '\r']) {
+        model::parse(&mut model, tokenizer::parse_obj(line)?)?;
     }
+    Ok(model)
 }
 
 /// Takes the content of an mtl file and parses it.
@@ -156,10 +157,11 @@ pub fn load_obj(input: &str) -> Result<Model, ObjError> {
 /// Returns a `Result` of either ObjError on parse errors
 /// or a collection of `Material`.
 pub fn load_mtl(input: &str) -> Result<Vec<Material>, ObjError> {
-    match tokenizer::parse_mtl(input) {
-        Ok(tokens) => Ok(material::parse(tokens)?),
-        Err(e) => Err(e.into()),
+    let mut lines = Vec::new();
+    for line in input.split(['\n', '\r']) {
+        lines.push(tokenizer::parse_mtl(line)?);
     }
+    Ok(material::parse(lines)?)
 }
 
 fn get_token_float(token: &Token) -> Result<f32, ObjError> {
diff --git a/src/material.rs b/src/material.rs
index 1c56d41..f9d5f11 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -412,11 +412,31 @@ enum MaterialElement {
     AntiAliasMap(bool),
 }
 
-pub(crate) fn parse(input: TokenSet<'_>) -> Result<Vec<Material>, MaterialError> {
-    let elements: Vec<MaterialElement> = match parse_material_set().parse_complete(input) {
-        Ok((_, x)) => x,
-        Err(e) => return Err(MaterialError::Parse(e.to_string())),
-    };
+/// Builds the materials described by the lines of an mtl file.
+pub(crate) fn parse(lines: Vec<TokenSet<'_>>) -> Result<Vec<Material>, MaterialError> {
+    let mut elements: Vec<MaterialElement> = Vec::new();
+    for line in lines {
+        if line.is_empty() {
+            continue;
+        }
+        if line.is_unknown_statement() {
+            log::error!("Skipping unknown statement: {:?}", line);
+            continue;
+        }
+        match parse_material_set().parse_complete(line) {
+            Ok((rest, x)) if rest.is_empty() => elements.extend(x),
+            Ok((rest, _)) => {
+                return Err(MaterialError::Parse(format!(
+                    "Unexpected input: {:?}",
+                    rest
+                )))
+            },
+            Err(e) => return Err(MaterialError::Parse(e.to_string())),
+        }
+    }
+    if elements.is_empty() {
+        return Err(MaterialError::Parse("No statements found".into()));
+    }
 
     let mut res = Vec::new();
     for e in elements {
diff --git a/src/model.rs b/src/model.rs
index 567e016..1e5ed8f 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -214,7 +214,13 @@ pub(crate) enum ModelElement {
     TextureMap(String),
 }
 
-pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
+/// Applies the statements on one line of input to `model`.
+pub(crate) fn parse(model: &mut Model, input: TokenSet) -> Result<(), ModelError> {
+    if input.is_unknown_statement() {
+        log::error!("Skipping unknown statement: {:?}", input);
+        return Ok(());
+    }
+
     match fold_many0(
         alt((
             map(parse_vertex(), ModelElement::Vertex),
@@ -237,8 +243,8 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
             parse_texture_map(),
             parse_group(),
         )),
-        Model::default,
-        |mut model: Model, item: ModelElement| {
+        || (),
+        |_, item: ModelElement| {
             match item {
                 ModelElement::Vertex(x) => model.vertices.push(x),
                 ModelElement::Normal(n) => model.normals.push(n),
@@ -296,12 +302,12 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                     }
                 },
             }
-            model
         },
     )
     .parse_complete(input)
     {
-        Ok((_, acc)) => Ok(acc),
+        Ok((rest, _)) if rest.is_empty() => Ok(()),
+        Ok((rest, _)) => Err(ModelError::Parse(format!("Unexpected input: {:?}", rest))),
         Err(e) => Err(ModelError::Parse(e.to_string())),
     }
 }
diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 6b5ab60..d9a03df 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -476,6 +476,15 @@ impl TokenSet<'_> {
         self.tokens.is_empty()
     }
 
+    /// A statement starts with a keyword. If the first token is anything else
+    /// then this is a statement which is not supported.
+    pub fn is_unknown_statement(&self) -> bool {
+        matches!(
+            self.tokens.first(),
+            Some(Token::String(_) | Token::Float(_) | Token::Int(_) | Token::Slash)
+        )
+    }
+
     pub fn split_at(&self, index: usize) -> (Self, Self) {
         let (a, b) = self.tokens.split_at(index);
         (Self { tokens: a.to_vec() }, Self { tokens: b.to_vec() })
-- 
2.43.0


From a35397d8b0bc32217fece4fdaf8bb543d47dda28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 2/7] fix: selecting a group again keeps its settings

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 1e5ed8f..707b8d4 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -271,7 +271,7 @@ pub(crate) fn parse(model: &mut Model, input: TokenSet) -> Result<(), ModelError
                 ModelElement::Group(groups) => {
                     model.current_group.clear();
                     for g in groups {
-                        model.groups.insert(g.clone(), Default::default());
+                        model.groups.entry(g.clone()).or_default();
                         model.current_group.push(g);
                     }
                 },
-- 
2.43.0


From 1fe61cc81ec732c13119681fa8fc59a9da0ce5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 3/7] fix: keep numbers which do not fit an i32 or have an
 exponent but no point

Integers outside the i32 range were silently read as 0, and '1e-5' was split
into the number 1 and the text 'e-5'.
---
 src/tokenizer/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index d9a03df..90d7b56 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -587,11 +587,12 @@ fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             }),
         ),
         |(sign, s): (Option<&str>, Vec<&str>)| {
-            let mut val = s.join("").parse::<i32>().unwrap_or_default();
-            if sign == Some("-") {
-                val *= -1;
+            let text = format!("{}{}", sign.unwrap_or_default(), s.join(""));
+            match text.parse::<i32>() {
+                Ok(val) => Token::Int(val),
+                // Too large for an integer, keep the value as a float.
+                Err(_) => Token::Float(text.parse::<f32>().unwrap_or_default()),
             }
-            Token::Int(val)
         },
     )
 }
@@ -662,6 +663,18 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
                     ),
                     |(f, _, s, e)| (f.unwrap_or_default(), s, e.unwrap_or_default()),
                 ),
+                map(
+                    (
+                        digit1,
+                        alt((tag("e"), tag("E"))),
+                        opt(alt((tag("+"), tag("-")))),
+                        digit1,
+                    ),
+                    |(f, e, sign, digits)| {
+                        let e = [e, sign.unwrap_or_default(), digits].concat();
+                        (vec![f], Vec::new(), e)
+                    },
+                ),
             )),
         ),
         |(sign, (f, s, e)): (Option<&str>, (Vec<&str>, Vec<&str>, String))| {
-- 
2.43.0


From c9d66a3afde1222d7205f192e60b7ea6384d5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 4/7] fix: read names to the end of the line

Group, object, material and file names (obj) and material names (mtl) which start
with a digit, '.', '/' or a keyword letter were split into other tokens, and a
material name with a space in an mtl file was cut at the space, so that it could
not match the same name in an obj file.
---
 src/tokenizer/mod.rs | 18 ++++++++++++++++++
 src/tokenizer/mtl.rs |  4 ++++
 src/tokenizer/obj.rs | 15 +++++++++++++++
 3 files changed, 37 insertions(+)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 90d7b56..9a69110 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -577,6 +577,24 @@ impl<'a> Input for TokenSet<'a> {
     }
 }
 
+/// Parses a line holding one of the `keywords` which are followed by a name.
+/// A name is free text, it runs to the end of the line.
+fn parse_name<'a>(
+    keywords: &[&str],
+    kw_map: impl Fn(&'a str) -> Token<'a>,
+    line: &'a str,
+) -> Option<TokenSet<'a>> {
+    let (kw, name) = line.trim_matches([' ', '\t']).split_once([' ', '\t'])?;
+    let name = name.trim_start_matches([' ', '\t']);
+    if name.starts_with('#')
+        || name.contains(['\r', '\n'])
+        || !keywords.iter().any(|k| k.eq_ignore_ascii_case(kw))
+    {
+        return None;
+    }
+    Some(vec![kw_map(kw), Token::String(Cow::Borrowed(name))].into())
+}
+
 fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
     map(
         (
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 47ce969..d3a0799 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -17,6 +17,10 @@ use nom::{
 use super::{Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
+    if let Some(tokens) = super::parse_name(&["newmtl"], kw_map, input) {
+        return Ok(tokens);
+    }
+
     match fold_many0(
         alt((
             delimited(
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index ef13c95..5cceb48 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -16,7 +16,22 @@ use nom::{
 
 use super::{Token, TokenSet, TokenizeError};
 
+const NAME_KEYWORDS: [&str; 8] = [
+    "mtllib",
+    "usemtl",
+    "shadow_obj",
+    "trace_obj",
+    "maplib",
+    "usemap",
+    "o",
+    "g",
+];
+
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
+    if let Some(tokens) = super::parse_name(&NAME_KEYWORDS, kw_map, input) {
+        return Ok(tokens);
+    }
+
     match fold_many0(
         alt((
             delimited(
-- 
2.43.0


From c6eb2dade223a100f6dae3121d77919e9c4d4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 5/7] fix: record bevel, c_interp, d_interp, lod, shadow_obj
 and trace_obj

The statements were accepted but their values dropped, so the documented fields
of Group and Model always held their defaults. The flags are on/off, not
true/false.
---
 src/model.rs | 64 ++++++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 707b8d4..5d647c0 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -286,12 +286,31 @@ pub(crate) fn parse(model: &mut Model, input: TokenSet) -> Result<(), ModelError
                 ModelElement::Smoothing(group_id) => {
                     model.current_smoothing_group = group_id;
                 },
-                ModelElement::Bevel(_flag) => {},
-                ModelElement::CInterp(_flag) => {},
-                ModelElement::DInterp(_flag) => {},
-                ModelElement::Lod(_level) => {},
-                ModelElement::ShadowObj(_name) => {},
-                ModelElement::TraceObj(_name) => {},
+                ModelElement::Bevel(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().bevel = flag;
+                    }
+                },
+                ModelElement::CInterp(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().c_interp = flag;
+                    }
+                },
+                ModelElement::DInterp(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().d_interp = flag;
+                    }
+                },
+                ModelElement::Lod(level) => match u8::try_from(level) {
+                    Ok(level) => {
+                        for g in &model.current_group {
+                            model.groups.entry(g.clone()).or_default().lod = level;
+                        }
+                    },
+                    Err(e) => log::error!("Invalid level of detail {}: {}", level, e),
+                },
+                ModelElement::ShadowObj(name) => model.shadow_obj = Some(name),
+                ModelElement::TraceObj(name) => model.trace_obj = Some(name),
                 ModelElement::TextureLib(libs) => {
                     model.texture_libs.extend(libs);
                 },
@@ -680,19 +699,14 @@ pub(crate) fn parse_bevel<'a>(
     map(
         preceded(token_match!(Token::Bevel), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
+            let flag = match get_on_off_from_str(&s) {
+                Ok(flag) => flag,
                 Err(e) => {
                     log::error!("{}", e);
                     Default::default()
                 },
             };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::Bevel(flag)
-            } else {
-                ModelElement::Bevel(false)
-            }
+            ModelElement::Bevel(flag)
         },
     )
 }
@@ -702,19 +716,14 @@ pub(crate) fn parse_c_interp<'a>(
     map(
         preceded(token_match!(Token::CInterp), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
+            let flag = match get_on_off_from_str(&s) {
+                Ok(flag) => flag,
                 Err(e) => {
                     log::error!("{}", e);
                     Default::default()
                 },
             };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::CInterp(flag)
-            } else {
-                ModelElement::CInterp(false)
-            }
+            ModelElement::CInterp(flag)
         },
     )
 }
@@ -724,19 +733,14 @@ pub(crate) fn parse_d_interp<'a>(
     map(
         preceded(token_match!(Token::DInterp), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
+            let flag = match get_on_off_from_str(&s) {
+                Ok(flag) => flag,
                 Err(e) => {
                     log::error!("{}", e);
                     Default::default()
                 },
             };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::DInterp(flag)
-            } else {
-                ModelElement::DInterp(false)
-            }
+            ModelElement::DInterp(flag)
         },
     )
 }
-- 
2.43.0


From 4207cd6dd02b904773da1d35407762d9fdbd3ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 6/7] fix: accept vp statements and the -boost option

Both are recognised by the tokenizer (and listed as supported in WORK.md) but no
parser took them, so a file using them could not be read.
---
 src/material.rs | 14 ++++++++++++++
 src/model.rs    | 15 +++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/material.rs b/src/material.rs
index f9d5f11..b27059f 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -52,6 +52,7 @@ enum OptionElement {
     ImfChan(String),
     BumpMultiplier(f32),
     ReflectionType(String),
+    Boost,
 }
 
 /// Common settings for texture maps which can be color corrected.
@@ -778,6 +779,7 @@ fn parse_options<'a>(
     many1(alt((
         parse_option_blend(),
         parse_option_bm(),
+        parse_option_boost(),
         parse_option_cc(),
         parse_option_clamp(),
         parse_option_texture_range(),
@@ -858,6 +860,18 @@ fn parse_option_bm<'a>(
     )
 }
 
+/// The maps do not hold a boost value, so it is accepted and ignored.
+fn parse_option_boost<'a>(
+) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
+    map(
+        preceded(
+            token_match!(Token::OptionBoost),
+            token_match!(Token::Float(_) | Token::Int(_)),
+        ),
+        |_| OptionElement::Boost,
+    )
+}
+
 fn parse_option_cc<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
     map(
diff --git a/src/model.rs b/src/model.rs
index 5d647c0..f3446bb 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -212,6 +212,7 @@ pub(crate) enum ModelElement {
     TraceObj(String),
     TextureLib(Vec<String>),
     TextureMap(String),
+    Ignored,
 }
 
 /// Applies the statements on one line of input to `model`.
@@ -242,6 +243,7 @@ pub(crate) fn parse(model: &mut Model, input: TokenSet) -> Result<(), ModelError
             parse_texture_lib(),
             parse_texture_map(),
             parse_group(),
+            parse_vertex_param(),
         )),
         || (),
         |_, item: ModelElement| {
@@ -320,6 +322,7 @@ pub(crate) fn parse(model: &mut Model, input: TokenSet) -> Result<(), ModelError
                         group.texture_map = Some(name.clone());
                     }
                 },
+                ModelElement::Ignored => {},
             }
         },
     )
@@ -457,6 +460,18 @@ pub(crate) fn parse_vertex_texture<'a>(
     )
 }
 
+/// The model has no free form geometry, so these are accepted and ignored.
+pub(crate) fn parse_vertex_param<'a>(
+) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
+    map(
+        preceded(
+            token_match!(Token::VertexParam),
+            many1(token_match!(Token::Float(_) | Token::Int(_))),
+        ),
+        |_| ModelElement::Ignored,
+    )
+}
+
 pub(crate) fn parse_face<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Face, Error = error::Error<TokenSet<'a>>> {
     preceded(
-- 
2.43.0


From 036b357e3a9cd7671f72c72a68d889a0110babf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 7/7] fix: do not split mtl input inside a character

Ignoring the case of a str matches the kelvin sign with a k, which is shorter,
and load_mtl panicked for a keyword spelled with it.
---
 src/tokenizer/mtl.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index d3a0799..26119cb 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -3,12 +3,13 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{is_not, tag, tag_no_case, take_till},
+    bytes::{is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1},
         multispace0,
     },
     combinator::map,
+    error::Error,
     multi::fold_many0,
     sequence::{delimited, preceded},
     Parser,
@@ -16,6 +17,15 @@ use nom::{
 
 use super::{Token, TokenSet, TokenizeError};
 
+/// Keywords are compared as bytes: ignoring the case of a `str` also matches
+/// characters which are longer than the ones in the keyword (the kelvin sign for
+/// a k), and then the input would be split in the middle of a character.
+fn tag_no_case<'a>(
+    keyword: &'static str,
+) -> impl Parser<&'a str, Output = &'a str, Error = Error<&'a str>> {
+    nom::bytes::tag_no_case(keyword.as_bytes())
+}
+
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     if let Some(tokens) = super::parse_name(&["newmtl"], kw_map, input) {
         return Ok(tokens);
-- 
2.43.0

