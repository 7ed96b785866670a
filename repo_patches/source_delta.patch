From 5d7a845e609738e7054a8b4079643e0fcc5b8744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 01/17] fix: resolve escape sequences in non-raw format strings

Escapes such as \n, \" or \\ in a regular string literal were taken as the two characters
of the source code, so sscanf!("a\nb", "a\nb") did not match.
---
 sscanf_macro/src/format_option.rs | 19 -------------
 sscanf_macro/src/format_string.rs |  2 +-
 sscanf_macro/src/str_lit.rs       | 44 +++++++++++++++++++++++++++++++
 3 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/sscanf_macro/src/format_option.rs b/sscanf_macro/src/format_option.rs
index ee8a8e3..ef09193 100644
--- a/sscanf_macro/src/format_option.rs
+++ b/sscanf_macro/src/format_option.rs
@@ -67,25 +67,6 @@ impl<'a> FormatOption<'a> {
                             break;
                         }
                     } else if c == '\\' {
-                        if !src.is_raw() {
-                            let (_, next) = input
-                                .next()
-                                .ok_or_else(|| src.slice(i..).error("unexpected end of regex"))?;
-                            // the above error is probably not possible, since a single \ at
-                            // the end of a non-raw string would escape the closing " and the
-                            // compiler would already complain about that.
-                            // the check is still here just in case
-
-                            if next != '\\' {
-                                // regular escaped char (\n, \t, etc)
-                                if escape.take().is_some() {
-                                    regex.push('\\');
-                                }
-                                regex.push('\\');
-                                regex.push(next);
-                                continue;
-                            }
-                        }
                         if escape.take().is_some() {
                             regex.push('\\');
                             regex.push('\\');
diff --git a/sscanf_macro/src/format_string.rs b/sscanf_macro/src/format_string.rs
index 4f673ca..6b7b9fc 100644
--- a/sscanf_macro/src/format_string.rs
+++ b/sscanf_macro/src/format_string.rs
@@ -12,7 +12,7 @@ impl<'a> FormatString<'a> {
         let mut current_part = String::new();
 
         // keep the iterator as a variable to allow peeking and advancing in a sub-function
-        let mut iter = src.text().char_indices().peekable();
+        let mut iter = src.unescaped_char_indices().peekable();
 
         while let Some((i, c)) = iter.next() {
             if c == '{' {
diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index 46c1f81..fb3c6b4 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -75,6 +75,50 @@ impl<'a> StrLitSlice<'a> {
         self.src.is_raw()
     }
 
+    /// Iterates over the characters that this slice stands for, resolving the escape sequences of
+    /// non-raw strings (`\n`, `\\`, `\u{...}`, ...). The indices are positions in [`Self::text`].
+    pub fn unescaped_char_indices(&self) -> impl Iterator<Item = (usize, char)> {
+        let mut ret = vec![];
+        let mut iter = self.text().char_indices().peekable();
+        while let Some((i, c)) = iter.next() {
+            if c != '\\' || self.is_raw() {
+                ret.push((i, c));
+                continue;
+            }
+            // the compiler already checked that all escape sequences are valid, so any unknown or
+            // incomplete sequence can be handled by simply leaving it as it is
+            let from_hex = |hex: &str| {
+                let hex = hex.replace('_', "");
+                u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32)
+            };
+            let unescaped = match iter.next() {
+                Some((_, 'n')) => Some('\n'),
+                Some((_, 'r')) => Some('\r'),
+                Some((_, 't')) => Some('\t'),
+                Some((_, '0')) => Some('\0'),
+                Some((_, 'x')) => {
+                    from_hex(&iter.by_ref().take(2).map(|(_, c)| c).collect::<String>())
+                }
+                Some((_, 'u')) => {
+                    let hex = iter.by_ref().map(|(_, c)| c).take_while(|c| *c != '}');
+                    from_hex(&hex.skip(1).collect::<String>()) // skip the opening '{'
+                }
+                Some((_, '\n')) | Some((_, '\r')) => {
+                    // line continuation: skips all leading whitespace on the following line(s)
+                    while iter
+                        .next_if(|(_, c)| matches!(c, ' ' | '\t' | '\n' | '\r'))
+                        .is_some()
+                    {}
+                    continue;
+                }
+                Some((_, c)) => Some(c), // \\, \" and \'
+                None => None,
+            };
+            ret.push((i, unescaped.unwrap_or(c)));
+        }
+        ret.into_iter()
+    }
+
     #[track_caller]
     pub fn slice<R>(&'_ self, range: R) -> StrLitSlice<'a>
     where
-- 
2.43.0


From 1978fff040b99e651798ee93c5d6f0d71d945e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 02/17] fix: exclude the character after the last digit from
 radix options

{:r10} accepted 'a', {:x} accepted 'g' and {:r36} accepted '{' as a digit, which turned
matching inputs like "abgg" for "{u16:x}{str}" into parsing errors.
---
 sscanf_macro/src/regex_parts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 8d7db06..266faf7 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -275,9 +275,9 @@ fn regex_from_radix(
     use std::cmp::Ordering::*;
     let possible_chars = match radix.cmp(&10) {
         Less => format!("0-{}", radix - 1),
-        Equal => "0-9a".to_string(),
+        Equal => "0-9".to_string(),
         Greater => {
-            let last_letter = (b'a' + radix - 10) as char;
+            let last_letter = (b'a' + (radix - 1) - 10) as char;
             format!("0-9a-{}", last_letter)
         }
     };
-- 
2.43.0


From cdf12c220af5bdd4fced05b14406df7f12297b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 03/17] fix: only accept ASCII digits in radix options

Unicode case folding let the Kelvin sign match 'k' and the long s match 's' in {:r21} to {:r36}.
---
 sscanf_macro/src/regex_parts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 266faf7..f197242 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -292,7 +292,7 @@ fn regex_from_radix(
     };
 
     let regex = format!(
-        "(?i:{sign}{prefix}[{digits}]{{1,{n}}})",
+        "(?i-u:{sign}{prefix}[{digits}]{{1,{n}}})",
         sign = sign,
         prefix = prefix_string,
         digits = possible_chars,
-- 
2.43.0


From a98d4b8a51d9cac4bc02beb4706d19250a6de3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 04/17] fix: match the entire input in from_str for regexes
 with a top-level alternation

---
 src/from_scanf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_scanf.rs b/src/from_scanf.rs
index 596840f..fbd906a 100644
--- a/src/from_scanf.rs
+++ b/src/from_scanf.rs
@@ -248,7 +248,7 @@ where
     where
         Self: crate::RegexRepresentation,
     {
-        let regex = format!("^{}$", Self::REGEX);
+        let regex = format!("^(?:{})$", Self::REGEX);
         #[allow(unused_qualifications)] // would complain about the `crate::` prefix, but we
         // specifically want the bundled regex rather than whatever a user has renamed to `regex`
         let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
-- 
2.43.0


From abe80e3787cd151712f5e4b87a6189e5b1a4b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 05/17] fix: use the actual name of raw identifiers in autogen

---
 sscanf_macro/src/derive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 5f8d17a..40e9806 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -1,4 +1,5 @@
 use std::collections::{HashMap, HashSet};
+use syn::ext::IdentExt;
 
 use crate::*;
 
@@ -432,7 +433,7 @@ pub fn parse_enum(
 Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields or `#[sscanf(skip)]` to skip a variant";
                 return Error::err_spanned(variant.fields, msg); // checked in tests/fail/derive_enum_attributes.rs
             }
-            autogen.create_struct_attr(&variant.ident.to_string(), src.clone())
+            autogen.create_struct_attr(&variant.ident.unraw().to_string(), src.clone())
         } else {
             continue;
         };
-- 
2.43.0


From bd1da8196f0e0657963d2948e8ad6cdc87e7dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 06/17] fix: accept any type in the from and try_from
 attributes

The argument was parsed as an expression before it was parsed as a type,
which rejected types that are not valid expressions, like Vec<u8> or
Cow<'a, str>.
---
 sscanf_macro/src/attribute.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/attribute.rs b/sscanf_macro/src/attribute.rs
index 768655d..5ae743c 100644
--- a/sscanf_macro/src/attribute.rs
+++ b/sscanf_macro/src/attribute.rs
@@ -222,7 +222,7 @@ impl<A: Attr> Attribute<A> {
         }
         let attr = input.parse::<syn::Ident>()?;
         src.extend(quote! { #attr });
-        let kind = find_match(&attr.to_string(), &src)?;
+        let kind: A = find_match(&attr.to_string(), &src)?;
 
         let mut value = None;
         let peek = input.lookahead1();
@@ -236,7 +236,13 @@ impl<A: Attr> Attribute<A> {
                 let msg = "expected an expression after `=`";
                 return Err(syn::Error::new_spanned(eq_sign, msg)); // checked in tests/fail/derive_struct_attributes.rs
             }
-            let expr = input.parse::<syn::Expr>()?;
+            // not every type is a valid expression, e.g. `Vec<u8>` or `Cow<'a, str>`
+            let takes_type = [attr::All::From.as_str(), attr::All::TryFrom.as_str()];
+            let expr = if takes_type.contains(&kind.as_str()) && is_type_argument(input) {
+                syn::Expr::Verbatim(input.parse::<syn::Type>()?.into_token_stream())
+            } else {
+                input.parse::<syn::Expr>()?
+            };
             src.extend(quote! { #eq_sign #expr });
             value = Some(expr);
         }
@@ -261,6 +267,12 @@ impl<A: Attr> Attribute<A> {
     }
 }
 
+/// checks if the next attribute argument can be parsed as a type
+fn is_type_argument(input: ParseStream) -> bool {
+    let fork = input.fork();
+    fork.parse::<syn::Type>().is_ok() && (fork.is_empty() || fork.peek(Token![,]))
+}
+
 fn find_attrs<A: Attr>(attrs: Vec<syn::Attribute>) -> Result<HashMap<A, Attribute<A>>> {
     let mut ret = HashMap::<A, Attribute<A>>::new();
     for attr in attrs {
-- 
2.43.0


From 1fe99012dd182ad5cf0d2fe70f331f87cd1ca883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 07/17] fix: reject string literals with a suffix instead of
 slicing them wrong

---
 sscanf_macro/src/str_lit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index fb3c6b4..9255b6c 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -201,7 +201,13 @@ impl<'a> StrLitSlice<'a> {
 
 impl Parse for StrLit {
     fn parse(input: ParseStream) -> syn::Result<Self> {
-        input.parse().map(Self::new)
+        let lit = input.parse::<syn::LitStr>()?;
+        if !lit.suffix().is_empty() {
+            // the compiler leaves it to the macro to check for suffixes like "abc"suffix
+            let msg = format!("suffix `{}` on string literal is invalid", lit.suffix());
+            return Err(syn::Error::new_spanned(lit, msg));
+        }
+        Ok(Self::new(lit))
     }
 }
 
-- 
2.43.0


From 8897150f60864c311e77bc3a2fa077044cd2c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 08/17] fix: report every error of a format string in
 expression position

---
 sscanf_macro/src/error.rs | 9 +++++++++
 sscanf_macro/src/lib.rs   | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/error.rs b/sscanf_macro/src/error.rs
index 1a78cc1..04a0d84 100644
--- a/sscanf_macro/src/error.rs
+++ b/sscanf_macro/src/error.rs
@@ -66,6 +66,15 @@ impl ErrorBuilder {
     }
 }
 
+impl Error {
+    /// Like `into`, but for macros that might be called in expression position, where only one
+    /// `compile_error!{}` would be allowed. Blocks may contain any number of them.
+    pub fn into_expr(self) -> proc_macro::TokenStream {
+        let errors = self.0;
+        quote::quote! { { #errors } }.into()
+    }
+}
+
 impl From<syn::Error> for Error {
     fn from(err: syn::Error) -> Self {
         Error(err.to_compile_error())
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 0340920..9c58fe3 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -123,7 +123,7 @@ pub fn sscanf_get_regex(input: TokenStream1) -> TokenStream1 {
     let input = syn::parse_macro_input!(input as ScanfInner);
     let (regex, _) = match generate_regex(&input, true) {
         Ok(v) => v,
-        Err(e) => return e.into(),
+        Err(e) => return e.into_expr(),
     };
     let ret = quote! {{
         #regex
@@ -156,7 +156,7 @@ pub fn derive_from_sscanf(input: TokenStream1) -> TokenStream1 {
 fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
     let (regex, matcher) = match generate_regex(&input.inner, escape_input) {
         Ok(v) => v,
-        Err(e) => return e.into(),
+        Err(e) => return e.into_expr(),
     };
     let src_str = {
         let src_str = input.src_str;
-- 
2.43.0


From 37c337ad0a0bad61f3332f883ad6a819380e5c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 09/17] fix: anchor sscanf_unescaped at both ends for a
 top-level alternation

---
 sscanf_macro/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 9c58fe3..d83c5e4 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -197,8 +197,10 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
 
 fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream, Vec<Matcher>)> {
     let mut format = FormatString::new(input.fmt.to_slice(), escape_input)?;
-    format.parts[0].insert(0, '^');
-    format.parts.last_mut().unwrap().push('$');
+    // unescaped text might contain a top-level alternation that would escape the anchors
+    let (start, end) = if escape_input { ("^", "$") } else { ("^(?:", ")$") };
+    format.parts[0].insert_str(0, start);
+    format.parts.last_mut().unwrap().push_str(end);
 
     // inner function to use ?-operator. This should be a closure, but those can't have lifetimes
     fn find_ph_type<'a>(
-- 
2.43.0


From 92acb825b061bfcc9d54a9843595d6902ec91cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 10/17] fix: make the generated code independent of names used
 by the caller

The generated locals could be shadowed by functions of the caller that share their name, and any input,
type or literal that was passed through another macro failed to compile because the locals were
given the span, and with it the hygiene, of the caller's tokens.
---
 sscanf_macro/src/derive.rs      | 76 ++++++++++++++++++++-------------
 sscanf_macro/src/lib.rs         | 21 ++++++---
 sscanf_macro/src/regex_parts.rs | 59 +++++++++++++------------
 sscanf_macro/src/utils.rs       | 12 ++++++
 4 files changed, 102 insertions(+), 66 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 40e9806..dffa73c 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -94,14 +94,25 @@ impl ValueConversion {
         let ValueConversion { from, to, with } = self;
         use ValueConversionMethod::*;
         match with {
-            From => FullSpan::from_spanned(from).apply(
-                quote! { <#to as ::std::convert::From<#from>> },
-                quote! { ::from(#value) },
-            ),
-            TryFrom => FullSpan::from_spanned(from).apply(
-                quote! { <#to as ::std::convert::TryFrom<#from>> },
-                quote! { ::try_from(#value)? },
-            ),
+            From => {
+                let span = FullSpan::from_spanned(from);
+                let convert = span.apply(
+                    quote! { <#to as ::std::convert::From<#from>> },
+                    quote! { ::from },
+                );
+                let param = span.end_parens(value);
+                quote! { #convert #param }
+            }
+            TryFrom => {
+                let span = FullSpan::from_spanned(from);
+                let convert = span.apply(
+                    quote! { <#to as ::std::convert::TryFrom<#from>> },
+                    quote! { ::try_from },
+                );
+                let param = span.end_parens(value);
+                let question_mark = span.apply_end(quote! { ? });
+                quote! { #convert #param #question_mark }
+            }
             Map(closure) => {
                 let span = closure.body.span();
                 quote::quote_spanned! {span=> {
@@ -357,15 +368,17 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
     let (lifetime, lt_generics) = merge_lifetimes(str_lifetimes, generics);
     let (impl_generics, _, where_clause) = lt_generics.split_for_impl();
 
+    let src = local_ident("src");
+    let start_len = local_ident("start_len");
     let num_captures = regex_parts.num_captures();
     let from_sscanf_impl = quote! {
         #[automatically_derived]
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
             const NUM_CAPTURES: usize = #num_captures;
-            fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
-                let start_len = src.len();
-                src.next().unwrap(); // skip the whole match
+            fn from_matches(#src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
+                let #start_len = #src.len();
+                #src.next().unwrap(); // skip the whole match
 
                 let mut catcher = || -> ::std::result::Result<Self, ::std::boxed::Box<dyn ::std::error::Error>> {
                     ::std::result::Result::Ok(#name #from_matches)
@@ -374,14 +387,14 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
                     type_name: stringify!(#name),
                     error,
                 })?;
-                let n = start_len - src.len();
+                let n = #start_len - #src.len();
                 if n != Self::NUM_CAPTURES {
                     panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
                         stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
-                Ok(res)
+                ::std::result::Result::Ok(res)
             }
         }
     };
@@ -417,6 +430,11 @@ pub fn parse_enum(
     let mut str_lifetimes = HashSet::new();
     let mut first = true;
 
+    let src = local_ident("src");
+    let start_len = local_ident("start_len");
+    let remaining = local_ident("remaining");
+    let expected = local_ident("expected");
+
     for variant in data.variants {
         let variant_attr = VariantAttribute::from_attrs(variant.attrs)?;
 
@@ -427,13 +445,13 @@ pub fn parse_enum(
                     StructAttribute::new(variant_attr.src, kind)
                 }
             }
-        } else if let Some((autogen, src)) = autogen.as_ref() {
+        } else if let Some((autogen, attr_src)) = autogen.as_ref() {
             if !variant.fields.is_empty() {
                 let msg = "FromScanf: autogen only works if the variants have no fields.
 Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields or `#[sscanf(skip)]` to skip a variant";
                 return Error::err_spanned(variant.fields, msg); // checked in tests/fail/derive_enum_attributes.rs
             }
-            autogen.create_struct_attr(&variant.ident.unraw().to_string(), src.clone())
+            autogen.create_struct_attr(&variant.ident.unraw().to_string(), attr_src.clone())
         } else {
             continue;
         };
@@ -461,13 +479,13 @@ Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields
         str_lifetimes.extend(variant_str_lifetimes);
 
         let matcher = quote! {
-            let expected = #num_captures;
+            let #expected = #num_captures;
 
-            remaining -= expected;
-            if src.next().expect(::sscanf::errors::EXPECT_NEXT_HINT).is_some() {
+            #remaining -= #expected;
+            if #src.next().expect(::sscanf::errors::EXPECT_NEXT_HINT).is_some() {
                 return ::std::result::Result::Ok(#name::#ident #from_matches);
-            } else if expected > 1 { // one was already taken by `src.next()` above
-                src.nth(expected - 2).expect(::sscanf::errors::EXPECT_NEXT_HINT);
+            } else if #expected > 1 { // one was already taken by `src.next()` above
+                #src.nth(#expected - 2).expect(::sscanf::errors::EXPECT_NEXT_HINT);
             }
         };
         variant_constructors.push(matcher);
@@ -506,11 +524,11 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
 
             const NUM_CAPTURES: usize = #(#num_captures_list)+*;
 
-            fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
-                let start_len = src.len();
-                let mut remaining = Self::NUM_CAPTURES;
-                src.next().unwrap(); // skip the whole match
-                remaining -= 1;
+            fn from_matches(#src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
+                let #start_len = #src.len();
+                let mut #remaining = Self::NUM_CAPTURES;
+                #src.next().unwrap(); // skip the whole match
+                #remaining -= 1;
 
                 let mut catcher = || -> ::std::result::Result<Self, ::std::boxed::Box<dyn ::std::error::Error>> {
                     #(#variant_constructors)*
@@ -522,18 +540,18 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
                     error,
                 })?;
 
-                if remaining > 0 {
-                    src.nth(remaining - 1).expect(::sscanf::errors::EXPECT_NEXT_HINT);
+                if #remaining > 0 {
+                    #src.nth(#remaining - 1).expect(::sscanf::errors::EXPECT_NEXT_HINT);
                 }
 
-                let n = start_len - src.len();
+                let n = #start_len - #src.len();
                 if n != Self::NUM_CAPTURES {
                     panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
                         stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
-                Ok(res)
+                ::std::result::Result::Ok(res)
             }
         }
     };
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index d83c5e4..3ddbafc 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -161,12 +161,15 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
     let src_str = {
         let src_str = input.src_str;
         let span = FullSpan::from_spanned(&src_str);
-        let param = span.apply(quote! { & }, quote! { (#src_str) });
+        let reference = span.apply_start(quote! { & });
+        let parens = span.end_parens(quote! { #src_str });
+        let param = quote! { #reference #parens };
 
         // wrapping the input in a manual call to str::get ensures that the user
         // gets an appropriate error message if they try to use a non-string input
         quote! { ::std::primitive::str::get(#param, ..).unwrap() }
     };
+    let src = local_ident("src");
     let ret = quote! {{
         #regex
         #[allow(clippy::needless_borrow)]
@@ -175,18 +178,18 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
         REGEX.captures(input)
             .ok_or_else(|| ::sscanf::errors::Error::MatchFailed)
             .and_then(|cap| {
-                let mut src = cap.iter();
-                let src = &mut src;
-                src.next().unwrap(); // skip the whole match
+                let mut #src = cap.iter();
+                let #src = &mut #src;
+                #src.next().unwrap(); // skip the whole match
 
                 let mut matcher = || -> ::std::result::Result<_, ::std::boxed::Box<dyn ::std::error::Error>> {
                     ::std::result::Result::Ok( ( #(#matcher),* ) )
                 };
                 let res = matcher().map_err(|e| ::sscanf::errors::Error::ParsingFailed(e));
 
-                if res.is_ok() && src.len() != 0 {
+                if res.is_ok() && #src.len() != 0 {
                     panic!("sscanf: {} captures generated, but {} were taken",
-                        REGEX.captures_len(), REGEX.captures_len() - src.len()
+                        REGEX.captures_len(), REGEX.captures_len() - #src.len()
                     );
                 }
                 res
@@ -198,7 +201,11 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
 fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream, Vec<Matcher>)> {
     let mut format = FormatString::new(input.fmt.to_slice(), escape_input)?;
     // unescaped text might contain a top-level alternation that would escape the anchors
-    let (start, end) = if escape_input { ("^", "$") } else { ("^(?:", ")$") };
+    let (start, end) = if escape_input {
+        ("^", "$")
+    } else {
+        ("^(?:", ")$")
+    };
     format.parts[0].insert_str(0, start);
     format.parts.last_mut().unwrap().push_str(end);
 
diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index f197242..18a99d6 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -81,29 +81,29 @@ pub enum Converter {
 
 impl ToTokens for Converter {
     fn to_tokens(&self, tokens: &mut TokenStream) {
+        let src = local_ident("src");
         match self {
             Converter::Str => tokens.extend(quote! {
-                src.next()
+                #src.next()
                    .expect(::sscanf::errors::EXPECT_NEXT_HINT)
                    .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
                    .as_str()
             }),
             Converter::CowStr => tokens.extend(quote! {
                 ::std::borrow::Cow::Borrowed(
-                    src.next()
+                    #src.next()
                         .expect(::sscanf::errors::EXPECT_NEXT_HINT)
                         .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
                         .as_str()
                 )
             }),
             Converter::FromType(ty, span) => {
-                let call = span.apply(
-                    quote! { ::sscanf::FromScanf },
-                    quote! { ::from_matches(&mut *src) },
-                );
+                let from_matches =
+                    span.apply(quote! { ::sscanf::FromScanf }, quote! { ::from_matches });
+                let param = span.end_parens(quote! { &mut *#src });
                 tokens.extend(quote! {
                     {
-                        let value: #ty = #call?;
+                        let value: #ty = #from_matches #param?;
                         value
                     }
                 });
@@ -124,16 +124,17 @@ impl ToTokens for Matcher {
         let ty = &self.ty;
         let num_captures = &self.num_captures;
         let converter = &self.converter;
+        let src = local_ident("src");
         tokens.extend(quote! {
             {
                 #[cfg(debug_assertions)]
-                let start_len = src.len();
+                let start_len = #src.len();
 
                 let value = #converter;
 
                 #[cfg(debug_assertions)]
                 {
-                    let n = start_len - src.len();
+                    let n = start_len - #src.len();
                     let expected = #num_captures;
                     if n != expected {
                         panic!(
@@ -304,25 +305,17 @@ fn regex_from_radix(
     let ty = ty.inner();
     let span = ty.span();
 
-    let get_input = quote! { src.next()
-        .expect(::sscanf::errors::EXPECT_NEXT_HINT)
-        .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
-        .as_str()
-    };
-
     fn create_converter(
         ty: &syn::Type,
         radix: u32,
         signed: bool,
         prefix_policy: PrefixPolicy,
-        get_input: TokenStream,
     ) -> TokenStream {
         let (prefix, no_prefix_handler) = match prefix_policy {
             PrefixPolicy::Never => {
-                return quote! {{
-                    let input = #get_input;
+                return quote! {
                     #ty::from_str_radix(input, #radix)?
-                }};
+                };
             }
             PrefixPolicy::Optional(prefix) => (prefix, quote! { /* do nothing */ }),
             PrefixPolicy::Forced(prefix) => (
@@ -340,8 +333,7 @@ fn regex_from_radix(
         };
 
         if signed {
-            quote! {{
-                let input = #get_input;
+            quote! {
                 let (negative, no_sign) = match input.strip_prefix('-') {
                     ::std::option::Option::Some(no_sign) => (true, no_sign),
                     ::std::option::Option::None => (false, input.strip_prefix('+').unwrap_or(input)),
@@ -359,10 +351,9 @@ fn regex_from_radix(
                     #no_prefix_handler
                     #ty::from_str_radix(input, #radix)? // note the use of `input` here to include the sign
                 }
-            }}
+            }
         } else {
-            quote! {{
-                let input = #get_input;
+            quote! {
                 let no_sign = input.strip_prefix('+').unwrap_or(input);
                 if let ::std::option::Option::Some(no_sign_prefix) = #prefix_matcher {
                     #ty::from_str_radix(no_sign_prefix, #radix)?
@@ -370,16 +361,24 @@ fn regex_from_radix(
                     #no_prefix_handler
                     #ty::from_str_radix(no_sign, #radix)?
                 }
-            }}
+            }
         }
     }
 
-    let converter = create_converter(ty, radix as u32, signed, prefix_policy, get_input);
+    let converter = create_converter(ty, radix as u32, signed, prefix_policy).with_span(span);
+
+    // everything that uses `input` has the span of the type, so its declaration has to as well
+    let let_input = quote! { let input = }.with_span(span);
+    let src = local_ident("src");
+    let converter = quote! {{
+        #let_input #src.next()
+            .expect(::sscanf::errors::EXPECT_NEXT_HINT)
+            .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
+            .as_str();
+        #converter
+    }};
 
-    Ok((
-        RegexPart::Custom(regex),
-        Converter::Custom(converter.with_span(span)),
-    ))
+    Ok((RegexPart::Custom(regex), Converter::Custom(converter)))
 }
 
 fn binary_length(ty: &str) -> Option<u32> {
diff --git a/sscanf_macro/src/utils.rs b/sscanf_macro/src/utils.rs
index d066afb..7a86dad 100644
--- a/sscanf_macro/src/utils.rs
+++ b/sscanf_macro/src/utils.rs
@@ -29,6 +29,12 @@ impl FullSpan {
             .unwrap_or(start);
         Self(start, end)
     }
+    /// Like `apply_end` on `( b )`, but everything between the parentheses keeps its own span.
+    pub fn end_parens(self, b: TokenStream) -> proc_macro2::Group {
+        let mut parens = proc_macro2::Group::new(proc_macro2::Delimiter::Parenthesis, b);
+        parens.set_span(self.1);
+        parens
+    }
     pub fn apply(self, a: TokenStream, b: TokenStream) -> TokenStream {
         let mut ret = self.apply_start(a);
         ret.extend(self.apply_end(b));
@@ -42,6 +48,12 @@ impl FullSpan {
     }
 }
 
+/// An identifier for a local variable in the generated code that can be neither seen nor shadowed by
+/// the tokens of the user, regardless of which macros those passed through.
+pub fn local_ident(name: &str) -> syn::Ident {
+    syn::Ident::new(name, Span::mixed_site())
+}
+
 /// Find the closest match to a string in a list of strings.
 pub fn find_closest<'a>(s: &str, compare: &[&'a str]) -> Option<&'a str> {
     let mut best_confidence = 0.8; // minimum confidence
-- 
2.43.0


From 28d3948694ffddb90376f5d451e45bd7c49fa4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 11/17] fix: recognise types and closures that were passed to
 the derive through a macro

---
 sscanf_macro/src/attribute/field.rs |  6 +++++-
 sscanf_macro/src/ty.rs              | 26 ++++++++++++++++++--------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/sscanf_macro/src/attribute/field.rs b/sscanf_macro/src/attribute/field.rs
index db1ce7d..2bedc62 100644
--- a/sscanf_macro/src/attribute/field.rs
+++ b/sscanf_macro/src/attribute/field.rs
@@ -32,7 +32,11 @@ impl FromAttribute<attr::Field, &'_ syn::Type> for FieldAttributeKind {
                 }
                 closure_hint.push('`');
 
-                let mapper = attr.value_as::<syn::Expr>(closure_format, Some(&closure_hint))?; // checked in tests/fail/derive_field_attributes.rs
+                let mut mapper = attr.value_as::<syn::Expr>(closure_format, Some(&closure_hint))?; // checked in tests/fail/derive_field_attributes.rs
+                while let syn::Expr::Group(group) = mapper {
+                    // passed through a macro as `$f:expr`
+                    mapper = *group.expr;
+                }
                 let mapper = if let syn::Expr::Closure(closure) = mapper {
                     closure
                 } else {
diff --git a/sscanf_macro/src/ty.rs b/sscanf_macro/src/ty.rs
index 42b9180..81de456 100644
--- a/sscanf_macro/src/ty.rs
+++ b/sscanf_macro/src/ty.rs
@@ -126,18 +126,25 @@ pub mod ty_check {
         let ty = ty.to_token_stream().to_string();
         possible.iter().any(|p| p.to_string() == ty)
     }
+    /// Types that were passed through a macro as `$t:ty` are wrapped in an invisible group
+    fn without_group(mut ty: &syn::Type) -> &syn::Type {
+        while let syn::Type::Group(group) = ty {
+            ty = &group.elem;
+        }
+        ty
+    }
     pub fn get_str(ty: &syn::Type) -> Option<Option<syn::Lifetime>> {
-        match ty {
-            syn::Type::Path(ref ty) => {
+        match without_group(ty) {
+            syn::Type::Path(ty) => {
                 if is_str_path(ty) {
                     Some(None)
                 } else {
                     None
                 }
             }
-            syn::Type::Reference(ref ty) => {
+            syn::Type::Reference(ty) => {
                 if ty.mutability.is_none()
-                    && matches!(*ty.elem, syn::Type::Path(ref inner) if is_str_path(inner))
+                    && matches!(without_group(&ty.elem), syn::Type::Path(inner) if is_str_path(inner))
                 {
                     Some(ty.lifetime.clone())
                 } else {
@@ -173,8 +180,11 @@ pub mod ty_check {
             } else {
                 None
             };
-            if !matches!(ty, syn::GenericArgument::Type(syn::Type::Path(ref inner)) if is_str_path(inner))
-            {
+            let ty = match ty {
+                syn::GenericArgument::Type(ty) => without_group(ty),
+                _ => return None,
+            };
+            if !matches!(ty, syn::Type::Path(inner) if is_str_path(inner)) {
                 return None;
             }
             if args.next().is_some() {
@@ -207,8 +217,8 @@ pub mod ty_check {
         }
     }
     pub fn get_cow_str(ty: &syn::Type) -> Option<Option<syn::Lifetime>> {
-        match ty {
-            syn::Type::Path(ref ty) => get_cow_str_path(ty),
+        match without_group(ty) {
+            syn::Type::Path(ty) => get_cow_str_path(ty),
             _ => None,
         }
     }
-- 
2.43.0


From 60bfe904966f0498ad56387ac8c9cd0fe3e1cdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 12/17] fix: refer to the associated items of FromScanf
 unambiguously in derived code

A variant named Err made the derive of an enum fail to compile (ambiguous_associated_items), and an
inherent constant NUM_CAPTURES of a type was used in place of the one of the trait.
---
 sscanf_macro/src/derive.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index dffa73c..2b6869f 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -376,7 +376,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
             const NUM_CAPTURES: usize = #num_captures;
-            fn from_matches(#src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
+            fn from_matches(#src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, ::sscanf::errors::FromScanfFailedError> {
                 let #start_len = #src.len();
                 #src.next().unwrap(); // skip the whole match
 
@@ -388,10 +388,10 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
                     error,
                 })?;
                 let n = #start_len - #src.len();
-                if n != Self::NUM_CAPTURES {
+                if n != <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES {
                     panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        stringify!(#name), <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
                 ::std::result::Result::Ok(res)
@@ -524,9 +524,9 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
 
             const NUM_CAPTURES: usize = #(#num_captures_list)+*;
 
-            fn from_matches(#src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
+            fn from_matches(#src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, ::sscanf::errors::FromScanfFailedError> {
                 let #start_len = #src.len();
-                let mut #remaining = Self::NUM_CAPTURES;
+                let mut #remaining = <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES;
                 #src.next().unwrap(); // skip the whole match
                 #remaining -= 1;
 
@@ -545,10 +545,10 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
                 }
 
                 let n = #start_len - #src.len();
-                if n != Self::NUM_CAPTURES {
+                if n != <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES {
                     panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        stringify!(#name), <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
                 ::std::result::Result::Ok(res)
-- 
2.43.0


From 299accac304f7cfd6bb140cbd6ae56224749b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 13/17] fix: do not let the generated static shadow a constant
 named REGEX in the input

---
 sscanf_macro/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 3ddbafc..63de411 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -127,7 +127,7 @@ pub fn sscanf_get_regex(input: TokenStream1) -> TokenStream1 {
     };
     let ret = quote! {{
         #regex
-        &REGEX
+        &__SSCANF_REGEX
     }};
     ret.into()
 }
@@ -175,7 +175,7 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
         #[allow(clippy::needless_borrow)]
         let input: &str = #src_str;
         #[allow(clippy::needless_question_mark)]
-        REGEX.captures(input)
+        __SSCANF_REGEX.captures(input)
             .ok_or_else(|| ::sscanf::errors::Error::MatchFailed)
             .and_then(|cap| {
                 let mut #src = cap.iter();
@@ -189,7 +189,7 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
 
                 if res.is_ok() && #src.len() != 0 {
                     panic!("sscanf: {} captures generated, but {} were taken",
-                        REGEX.captures_len(), REGEX.captures_len() - #src.len()
+                        __SSCANF_REGEX.captures_len(), __SSCANF_REGEX.captures_len() - #src.len()
                     );
                 }
                 res
@@ -269,7 +269,7 @@ fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream
     let regex = regex_parts.regex();
     let num_captures = regex_parts.num_captures();
     let regex = quote! { ::sscanf::lazy_static::lazy_static! {
-        static ref REGEX: ::sscanf::regex::Regex = {
+        static ref __SSCANF_REGEX: ::sscanf::regex::Regex = {
             let regex_str = #regex;
             let regex = ::sscanf::regex::Regex::new(regex_str)
                 .expect("sscanf: Cannot generate Regex");
-- 
2.43.0


From d5765edbb257b6d524021ee73395a8c01917270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 14/17] fix: do not shadow a constant named NUM_CAPTURES in the
 types of the input

---
 sscanf_macro/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 63de411..2636797 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -268,18 +268,20 @@ fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream
 
     let regex = regex_parts.regex();
     let num_captures = regex_parts.num_captures();
+    let expected = local_ident("expected");
     let regex = quote! { ::sscanf::lazy_static::lazy_static! {
         static ref __SSCANF_REGEX: ::sscanf::regex::Regex = {
             let regex_str = #regex;
             let regex = ::sscanf::regex::Regex::new(regex_str)
                 .expect("sscanf: Cannot generate Regex");
 
-            const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
+            // not a constant: the types in it might use one of the same name
+            let #expected: ::std::primitive::usize = #num_captures;
 
-            if regex.captures_len() != NUM_CAPTURES {
+            if regex.captures_len() != #expected {
                 panic!(
                     "sscanf: Regex has {} capture groups, but {} were expected.{}",
-                    regex.captures_len(), NUM_CAPTURES, ::sscanf::errors::WRONG_CAPTURES_HINT
+                    regex.captures_len(), #expected, ::sscanf::errors::WRONG_CAPTURES_HINT
                 );
             }
             regex
-- 
2.43.0


From 9e8138ccba15f4e34d611604ad83b776785178b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 15/17] fix: accept a custom regex in verbose mode that ends in
 a comment

---
 sscanf_macro/src/format_option.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sscanf_macro/src/format_option.rs b/sscanf_macro/src/format_option.rs
index ef09193..6006a53 100644
--- a/sscanf_macro/src/format_option.rs
+++ b/sscanf_macro/src/format_option.rs
@@ -113,6 +113,12 @@ Either make them non-capturing by adding '?:' after the '(' or remove/escape the
                     }
                 }
 
+                // in verbose mode, a comment at the end would swallow the `)` of the surrounding group
+                let in_group = format!("({})", regex);
+                if regex_syntax::Parser::new().parse(&in_group).is_err() {
+                    regex.push('\n');
+                }
+
                 let kind = FormatOptionKind::Regex(regex);
                 Ok((Self { src, kind }, close_bracket_index))
             }
-- 
2.43.0


From 3a11f73a531e8be149ec8570c444016b7c1061de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:33 +0000
Subject: [PATCH 16/17] fix: make the expansion of types with several lifetimes
 reproducible

The predicates for the lifetimes of borrowed fields came in the order of a HashSet,
so that two compilations of the same program gave different code.
---
 sscanf_macro/src/derive.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 2b6869f..63a5c7a 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap};
 use syn::ext::IdentExt;
 
 use crate::*;
@@ -136,7 +136,7 @@ impl ValueConversion {
 fn parse_format(
     attr: StructAttribute,
     raw_fields: syn::Fields,
-) -> Result<(RegexParts, TokenStream, HashSet<syn::Lifetime>)> {
+) -> Result<(RegexParts, TokenStream, BTreeSet<syn::Lifetime>)> {
     let (value, escape) = match attr.kind {
         StructAttributeKind::Format { value, escape } => (value, escape),
         StructAttributeKind::Transparent => {
@@ -155,7 +155,7 @@ fn parse_format(
 
     let mut fields = vec![];
     let mut field_map = HashMap::new();
-    let mut str_lifetimes = HashSet::new();
+    let mut str_lifetimes = BTreeSet::new();
     for (i, field) in raw_fields.into_iter().enumerate() {
         let mut ty = field.ty;
         let ident = if let Some(ident) = field.ident {
@@ -311,7 +311,7 @@ The syntax for default values is: `#[sscanf(default)]` to use Default::default()
 }
 
 fn merge_lifetimes(
-    str_lifetimes: HashSet<syn::Lifetime>,
+    str_lifetimes: BTreeSet<syn::Lifetime>,
     src_generics: &syn::Generics,
 ) -> (syn::Lifetime, syn::Generics) {
     let mut lifetime = syn::Lifetime::new("'__from_scanf_lifetime", Span::call_site());
@@ -427,7 +427,7 @@ pub fn parse_enum(
     regex_parts.push_literal("(?:");
     let mut variant_constructors = vec![];
     let mut num_captures_list = vec![NumCaptures::One];
-    let mut str_lifetimes = HashSet::new();
+    let mut str_lifetimes = BTreeSet::new();
     let mut first = true;
 
     let src = local_ident("src");
-- 
2.43.0


From c172d3e0e13acdcc84800fdbdac8f0aaecb53afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:33 +0000
Subject: [PATCH 17/17] fix: do not warn about deprecated items inside of
 derived impls

Deriving FromScanf on an item that is deprecated, or has deprecated fields or variants,
triggered the lint deprecated at the definition itself, unlike the derives of std.
---
 sscanf_macro/src/derive.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 63a5c7a..c6f509f 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -360,6 +360,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
     let regex = regex_parts.regex();
     let regex_impl = quote! {
         #[automatically_derived]
+        #[allow(deprecated)] // the item or parts of it may be deprecated
         impl #impl_generics ::sscanf::RegexRepresentation for #name #ty_generics #where_clause {
             const REGEX: &'static ::std::primitive::str = #regex;
         }
@@ -373,6 +374,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
     let num_captures = regex_parts.num_captures();
     let from_sscanf_impl = quote! {
         #[automatically_derived]
+        #[allow(deprecated)] // the item or parts of it may be deprecated
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
             const NUM_CAPTURES: usize = #num_captures;
@@ -509,6 +511,7 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
     let regex = regex_parts.regex();
     let regex_impl = quote! {
         #[automatically_derived]
+        #[allow(deprecated)] // the item or parts of it may be deprecated
         impl #impl_generics ::sscanf::RegexRepresentation for #name #ty_generics #where_clause {
             const REGEX: &'static ::std::primitive::str = #regex;
         }
@@ -519,6 +522,7 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
 
     let from_sscanf_impl = quote! {
         #[automatically_derived]
+        #[allow(deprecated)] // the item or parts of it may be deprecated
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
 
-- 
2.43.0

