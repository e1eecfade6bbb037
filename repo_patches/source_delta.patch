From f8167c36f04a89d78e3041e80bd3112f1e86182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 01/15] fix: radix options accepted one digit too many

The character class for r10 and above included one letter past the last digit of the radix
('g' for hex, 'a' for r10, '{' for r36).
---
 sscanf_macro/src/regex_parts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 8d7db06..fd15227 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -275,9 +275,9 @@ fn regex_from_radix(
     use std::cmp::Ordering::*;
     let possible_chars = match radix.cmp(&10) {
         Less => format!("0-{}", radix - 1),
-        Equal => "0-9a".to_string(),
+        Equal => "0-9".to_string(),
         Greater => {
-            let last_letter = (b'a' + radix - 10) as char;
+            let last_letter = (b'a' + radix - 11) as char;
             format!("0-9a-{}", last_letter)
         }
     };
-- 
2.43.0


From f41b547e48374526537bc7aee1afb7d99eba43e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 02/15] fix: resolve escape sequences in non-raw format strings

The format string was read from the source code of the literal, so "a\tb" looked for a backslash
followed by a 't' in the input.
---
 sscanf_macro/src/format_string.rs | 47 +++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/sscanf_macro/src/format_string.rs b/sscanf_macro/src/format_string.rs
index 4f673ca..f03a0b6 100644
--- a/sscanf_macro/src/format_string.rs
+++ b/sscanf_macro/src/format_string.rs
@@ -34,6 +34,15 @@ impl<'a> FormatString<'a> {
                 }
             }
 
+            let c = if c == '\\' && !src.is_raw() {
+                match parse_escape(&mut iter) {
+                    Some(c) => c,
+                    None => continue, // line continuation
+                }
+            } else {
+                c
+            };
+
             if escape_input && regex_syntax::is_meta_character(c) {
                 current_part.push('\\');
             }
@@ -48,3 +57,41 @@ impl<'a> FormatString<'a> {
         })
     }
 }
+
+/// Evaluates the escape sequence after a `\` in a non-raw string literal.
+///
+/// `src.text()` is the source code of the literal, so escape sequences have not been resolved yet.
+/// The compiler has already checked that they are valid.
+///
+/// Returns `None` if the `\` was at the end of a line, which skips the line break and all
+/// whitespace after it.
+fn parse_escape<I: Iterator<Item = (usize, char)>>(
+    iter: &mut std::iter::Peekable<I>,
+) -> Option<char> {
+    let from_hex = |hex: String| {
+        let code = u32::from_str_radix(&hex, 16).ok();
+        code.and_then(std::char::from_u32)
+    };
+    let (_, c) = iter.next()?;
+    match c {
+        'n' => Some('\n'),
+        'r' => Some('\r'),
+        't' => Some('\t'),
+        '0' => Some('\0'),
+        'x' => from_hex(iter.take(2).map(|(_, c)| c).collect()),
+        'u' => from_hex(
+            iter.map(|(_, c)| c)
+                .take_while(|c| *c != '}')
+                .filter(|c| *c != '{' && *c != '_')
+                .collect(),
+        ),
+        '\r' | '\n' => {
+            while iter
+                .next_if(|(_, c)| matches!(c, ' ' | '\t' | '\r' | '\n'))
+                .is_some()
+            {}
+            None
+        }
+        c => Some(c), // \\, \' and \"
+    }
+}
-- 
2.43.0


From d0bd27fd6540ba1256985ef639ec24d7987f1108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 03/15] fix: anchor the entire REGEX in the derived FromStr

^a|b$ is (^a)|(b$), so formats with a top-level alternation matched parts of the input.
---
 src/from_scanf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/from_scanf.rs b/src/from_scanf.rs
index 596840f..fd4e5e8 100644
--- a/src/from_scanf.rs
+++ b/src/from_scanf.rs
@@ -248,7 +248,8 @@ where
     where
         Self: crate::RegexRepresentation,
     {
-        let regex = format!("^{}$", Self::REGEX);
+        // the group is necessary in case REGEX contains a top-level alternation
+        let regex = format!("^(?:{})$", Self::REGEX);
         #[allow(unused_qualifications)] // would complain about the `crate::` prefix, but we
         // specifically want the bundled regex rather than whatever a user has renamed to `regex`
         let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
-- 
2.43.0


From a906583d4af2f8746816ee82fcf8da68853e7245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 04/15] fix: remove the r# prefix from variant names in autogen

---
 sscanf_macro/src/derive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 5f8d17a..0eb9340 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -1,6 +1,7 @@
 use std::collections::{HashMap, HashSet};
 
 use crate::*;
+use syn::ext::IdentExt;
 
 pub struct Field {
     ident: FieldIdent,
@@ -432,7 +433,7 @@ pub fn parse_enum(
 Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields or `#[sscanf(skip)]` to skip a variant";
                 return Error::err_spanned(variant.fields, msg); // checked in tests/fail/derive_enum_attributes.rs
             }
-            autogen.create_struct_attr(&variant.ident.to_string(), src.clone())
+            autogen.create_struct_attr(&variant.ident.unraw().to_string(), src.clone())
         } else {
             continue;
         };
-- 
2.43.0


From 966287a079746298ae417676e0141c061f417287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 05/15] fix: allow escaped quotes in custom regexes of non-raw
 format strings

\" and \' only exist for the string literal, but were passed on to the regex parser, which rejects
them.
---
 sscanf_macro/src/format_option.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/format_option.rs b/sscanf_macro/src/format_option.rs
index ee8a8e3..c02d7dc 100644
--- a/sscanf_macro/src/format_option.rs
+++ b/sscanf_macro/src/format_option.rs
@@ -81,7 +81,10 @@ impl<'a> FormatOption<'a> {
                                 if escape.take().is_some() {
                                     regex.push('\\');
                                 }
-                                regex.push('\\');
+                                if next != '"' && next != '\'' {
+                                    // quotes are only escaped for the string literal
+                                    regex.push('\\');
+                                }
                                 regex.push(next);
                                 continue;
                             }
-- 
2.43.0


From ae64d01f7a173fe50b3bc7ba97d253a5bff44267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 06/15] fix: report every error of a format when the macro is
 used as an expression

---
 sscanf_macro/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 0340920..6c57f1a 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -123,7 +123,7 @@ pub fn sscanf_get_regex(input: TokenStream1) -> TokenStream1 {
     let input = syn::parse_macro_input!(input as ScanfInner);
     let (regex, _) = match generate_regex(&input, true) {
         Ok(v) => v,
-        Err(e) => return e.into(),
+        Err(e) => return error_block(e),
     };
     let ret = quote! {{
         #regex
@@ -153,10 +153,17 @@ pub fn derive_from_sscanf(input: TokenStream1) -> TokenStream1 {
     }
 }
 
+/// Wraps the error in a block, because it might consist of several `compile_error!`s, which are not
+/// an expression on their own.
+fn error_block(error: Error) -> TokenStream1 {
+    let error = TokenStream::from(error);
+    quote! {{ #error }}.into()
+}
+
 fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
     let (regex, matcher) = match generate_regex(&input.inner, escape_input) {
         Ok(v) => v,
-        Err(e) => return e.into(),
+        Err(e) => return error_block(e),
     };
     let src_str = {
         let src_str = input.src_str;
-- 
2.43.0


From caf6ab9ad7b8c750fa7742f3182dbdcc8f438f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 07/15] fix: check the number of capture groups in
 FromScanf::from_str

---
 src/from_scanf.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/from_scanf.rs b/src/from_scanf.rs
index fd4e5e8..dccda3a 100644
--- a/src/from_scanf.rs
+++ b/src/from_scanf.rs
@@ -261,6 +261,16 @@ where
             )
         });
 
+        if regex.captures_len() != Self::NUM_CAPTURES {
+            panic!(
+                "sscanf: Regex of {} has {} capture groups, but {} were expected.{}",
+                std::any::type_name::<Self>(),
+                regex.captures_len(),
+                Self::NUM_CAPTURES,
+                crate::errors::WRONG_CAPTURES_HINT
+            );
+        }
+
         regex
             .captures(src)
             .ok_or_else(|| crate::errors::Error::MatchFailed)
-- 
2.43.0


From 7678a6ab26f21970ccf1fca6e5d5e758fce1ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 08/15] fix: accept types with generic arguments in from and
 try_from

---
 sscanf_macro/src/attribute.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/attribute.rs b/sscanf_macro/src/attribute.rs
index 768655d..2a98057 100644
--- a/sscanf_macro/src/attribute.rs
+++ b/sscanf_macro/src/attribute.rs
@@ -2,6 +2,8 @@ use std::collections::HashMap;
 use std::fmt::{Debug, Display};
 use std::hash::Hash;
 
+use syn::parse::discouraged::Speculative;
+
 use crate::*;
 
 mod r#enum; // not all of these need to be r#, but this looks nicer
@@ -222,7 +224,7 @@ impl<A: Attr> Attribute<A> {
         }
         let attr = input.parse::<syn::Ident>()?;
         src.extend(quote! { #attr });
-        let kind = find_match(&attr.to_string(), &src)?;
+        let kind: A = find_match(&attr.to_string(), &src)?;
 
         let mut value = None;
         let peek = input.lookahead1();
@@ -236,7 +238,19 @@ impl<A: Attr> Attribute<A> {
                 let msg = "expected an expression after `=`";
                 return Err(syn::Error::new_spanned(eq_sign, msg)); // checked in tests/fail/derive_struct_attributes.rs
             }
-            let expr = input.parse::<syn::Expr>()?;
+            let takes_type = [attr::All::From.as_str(), attr::All::TryFrom.as_str()];
+            let fork = input.fork();
+            let expr = match fork.parse::<Type>() {
+                // types with generic arguments are not valid expressions
+                Ok(ty)
+                    if takes_type.contains(&kind.as_str())
+                        && (fork.is_empty() || fork.peek(Token![,])) =>
+                {
+                    input.advance_to(&fork);
+                    syn::Expr::Verbatim(ty.to_token_stream())
+                }
+                _ => input.parse::<syn::Expr>()?,
+            };
             src.extend(quote! { #eq_sign #expr });
             value = Some(expr);
         }
-- 
2.43.0


From 2ed85fbb226501327922664e01f4f401c7eb5107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 09/15] fix: reject a value of the skip attribute

---
 sscanf_macro/src/attribute/variant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/attribute/variant.rs b/sscanf_macro/src/attribute/variant.rs
index 50aa6ff..6540385 100644
--- a/sscanf_macro/src/attribute/variant.rs
+++ b/sscanf_macro/src/attribute/variant.rs
@@ -10,7 +10,13 @@ pub enum VariantAttributeKind {
 impl FromAttribute<attr::Variant> for VariantAttributeKind {
     fn from_attribute(attr: Attribute<attr::Variant>, _: ()) -> Result<Self> {
         let struct_kind = match attr.kind {
-            attr::Variant::Skip => return Ok(Self::Skip),
+            attr::Variant::Skip => {
+                if let Some(value) = attr.value.as_ref() {
+                    let msg = format!("attribute `{}` does not take a value", attr.kind);
+                    return Error::err_spanned(value, msg);
+                }
+                return Ok(Self::Skip);
+            }
             attr::Variant::Format => attr::Struct::Format,
             attr::Variant::FormatUnescaped => attr::Struct::FormatUnescaped,
             attr::Variant::Transparent => attr::Struct::Transparent,
-- 
2.43.0


From 1229fe990b0402d8a448d053360d538ce7b59c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 10/15] fix: keep the spans of code passed through macro_rules
 macros

with_span replaced the spans of everything inside of groups, including the
user's types and expressions, so that the generated code could no longer refer
to its own variables.
---
 sscanf_macro/src/utils.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sscanf_macro/src/utils.rs b/sscanf_macro/src/utils.rs
index d066afb..8f7fc25 100644
--- a/sscanf_macro/src/utils.rs
+++ b/sscanf_macro/src/utils.rs
@@ -88,9 +88,6 @@ impl TokenStreamExt for TokenStream {
     fn with_span(self, span: Span) -> Self {
         self.into_iter()
             .map(|mut t| {
-                if let proc_macro2::TokenTree::Group(ref mut g) = t {
-                    *g = proc_macro2::Group::new(g.delimiter(), g.stream().with_span(span));
-                }
                 t.set_span(span);
                 t
             })
-- 
2.43.0


From 10b43a2cf55ab325d8c546f7d54a1fb7428da49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 11/15] fix: see through the invisible groups of macro_rules
 fragments

---
 sscanf_macro/src/attribute/field.rs | 6 +++++-
 sscanf_macro/src/ty.rs              | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/attribute/field.rs b/sscanf_macro/src/attribute/field.rs
index db1ce7d..2091919 100644
--- a/sscanf_macro/src/attribute/field.rs
+++ b/sscanf_macro/src/attribute/field.rs
@@ -32,7 +32,11 @@ impl FromAttribute<attr::Field, &'_ syn::Type> for FieldAttributeKind {
                 }
                 closure_hint.push('`');
 
-                let mapper = attr.value_as::<syn::Expr>(closure_format, Some(&closure_hint))?; // checked in tests/fail/derive_field_attributes.rs
+                let mut mapper = attr.value_as::<syn::Expr>(closure_format, Some(&closure_hint))?; // checked in tests/fail/derive_field_attributes.rs
+                // closures passed through a `macro_rules!` macro are wrapped in invisible groups
+                while let syn::Expr::Group(group) = mapper {
+                    mapper = *group.expr;
+                }
                 let mapper = if let syn::Expr::Closure(closure) = mapper {
                     closure
                 } else {
diff --git a/sscanf_macro/src/ty.rs b/sscanf_macro/src/ty.rs
index 42b9180..325ebb9 100644
--- a/sscanf_macro/src/ty.rs
+++ b/sscanf_macro/src/ty.rs
@@ -22,7 +22,11 @@ pub enum TypeSource<'a> {
 
 #[allow(unused)]
 impl<'a> Type<'a> {
-    pub fn from_ty(ty: syn::Type) -> Self {
+    pub fn from_ty(mut ty: syn::Type) -> Self {
+        // types passed through a `macro_rules!` macro are wrapped in invisible groups
+        while let syn::Type::Group(group) = ty {
+            ty = *group.elem;
+        }
         let kind = TypeKind::from_ty(&ty);
         let source = TypeSource::External;
         Type { kind, source, ty }
-- 
2.43.0


From 960c8d259e12aa10dfca8db20a2b5927ae91175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 12/15] fix: reject suffixes on string literals

The suffix became a part of the format string.
---
 sscanf_macro/src/str_lit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index 46c1f81..ce60ecf 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -157,7 +157,13 @@ impl<'a> StrLitSlice<'a> {
 
 impl Parse for StrLit {
     fn parse(input: ParseStream) -> syn::Result<Self> {
-        input.parse().map(Self::new)
+        let lit = input.parse::<syn::LitStr>()?;
+        if !lit.suffix().is_empty() {
+            // the suffix would end up in the text of the format string
+            let msg = "suffixes on string literals are invalid";
+            return Err(syn::Error::new_spanned(lit, msg));
+        }
+        Ok(Self::new(lit))
     }
 }
 
-- 
2.43.0


From 777c18bbd6e1bcf48a5202fae2b5e3ebb9aff541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 13/15] fix: evaluate the input outside of the block that
 declares REGEX

An input expression that uses an item named REGEX referred to the regex of the
macro.
---
 sscanf_macro/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 6c57f1a..713a0df 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -176,8 +176,6 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
     };
     let ret = quote! {{
         #regex
-        #[allow(clippy::needless_borrow)]
-        let input: &str = #src_str;
         #[allow(clippy::needless_question_mark)]
         REGEX.captures(input)
             .ok_or_else(|| ::sscanf::errors::Error::MatchFailed)
@@ -199,6 +197,12 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
                 res
             })
     }};
+    // `REGEX` is visible everywhere in its block, so the user's expression has to be outside of it
+    let ret = quote! {{
+        #[allow(clippy::needless_borrow)]
+        let input: &str = #src_str;
+        #ret
+    }};
     ret.into()
 }
 
-- 
2.43.0


From 2ac993f4435a09438c121ba3a2b296ecf677d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:48 +0000
Subject: [PATCH 14/15] fix: do not depend on the names Ok, panic, unreachable
 and stringify

The generated code used the ones of the surrounding scope.
---
 sscanf_macro/src/derive.rs      | 20 ++++++++++----------
 sscanf_macro/src/lib.rs         |  4 ++--
 sscanf_macro/src/regex_parts.rs |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 0eb9340..cf99a5f 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -114,7 +114,7 @@ impl ValueConversion {
                 quote::quote_spanned! {span=> {
                     let f: fn(#from) -> ::std::option::Option<#to> = #closure;
                     f(#value).ok_or(::sscanf::errors::FilterMapNoneError {
-                        field_name: stringify!(#field_name)
+                        field_name: ::std::stringify!(#field_name)
                     })?
                 }}
             }
@@ -371,17 +371,17 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
                     ::std::result::Result::Ok(#name #from_matches)
                 };
                 let res = catcher().map_err(|error| ::sscanf::errors::FromScanfFailedError {
-                    type_name: stringify!(#name),
+                    type_name: ::std::stringify!(#name),
                     error,
                 })?;
                 let n = start_len - src.len();
                 if n != Self::NUM_CAPTURES {
-                    panic!(
+                    ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
-                Ok(res)
+                ::std::result::Result::Ok(res)
             }
         }
     };
@@ -515,10 +515,10 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
                 let mut catcher = || -> ::std::result::Result<Self, ::std::boxed::Box<dyn ::std::error::Error>> {
                     #(#variant_constructors)*
 
-                    unreachable!("sscanf: enum regex matched but no variant was captured");
+                    ::std::unreachable!("sscanf: enum regex matched but no variant was captured");
                 };
                 let res = catcher().map_err(|error| ::sscanf::errors::FromScanfFailedError {
-                    type_name: stringify!(#name),
+                    type_name: ::std::stringify!(#name),
                     error,
                 })?;
 
@@ -528,12 +528,12 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
 
                 let n = start_len - src.len();
                 if n != Self::NUM_CAPTURES {
-                    panic!(
+                    ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
-                Ok(res)
+                ::std::result::Result::Ok(res)
             }
         }
     };
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 713a0df..b64fe90 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -190,7 +190,7 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
                 let res = matcher().map_err(|e| ::sscanf::errors::Error::ParsingFailed(e));
 
                 if res.is_ok() && src.len() != 0 {
-                    panic!("sscanf: {} captures generated, but {} were taken",
+                    ::std::panic!("sscanf: {} captures generated, but {} were taken",
                         REGEX.captures_len(), REGEX.captures_len() - src.len()
                     );
                 }
@@ -279,7 +279,7 @@ fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream
             const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
 
             if regex.captures_len() != NUM_CAPTURES {
-                panic!(
+                ::std::panic!(
                     "sscanf: Regex has {} capture groups, but {} were expected.{}",
                     regex.captures_len(), NUM_CAPTURES, ::sscanf::errors::WRONG_CAPTURES_HINT
                 );
diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index fd15227..c9caa23 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -136,9 +136,9 @@ impl ToTokens for Matcher {
                     let n = start_len - src.len();
                     let expected = #num_captures;
                     if n != expected {
-                        panic!(
+                        ::std::panic!(
                             "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                            stringify!(#ty), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                            ::std::stringify!(#ty), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                         );
                     }
                 }
-- 
2.43.0


From 6b87fafa4e607ebba228bc39a0992fbd81133461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:15 +0000
Subject: [PATCH 15/15] fix: sscanf_get_regex returns a &'static Regex, as
 documented

---
 sscanf_macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index b64fe90..b608869 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -127,7 +127,7 @@ pub fn sscanf_get_regex(input: TokenStream1) -> TokenStream1 {
     };
     let ret = quote! {{
         #regex
-        &REGEX
+        &*REGEX
     }};
     ret.into()
 }
-- 
2.43.0

