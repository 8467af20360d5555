From e8ecb1f2d2cc84d94bcd05ad78fce778f5a1c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 01/17] fix: accept `name=-1` and other values whose first
 punctuation directly follows `=`

---
 structmeta/src/helpers.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 57c9e2b..f213d53 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, Spacing, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use syn::{
     MacroDelimiter, Result, Token, braced, bracketed,
     ext::IdentExt,
@@ -104,11 +104,7 @@ pub fn try_parse_name(
     Ok(None)
 }
 fn peek_eq_op(input: ParseStream) -> bool {
-    if let Some((p, _)) = input.cursor().punct() {
-        p.as_char() == '=' && p.spacing() == Spacing::Alone
-    } else {
-        false
-    }
+    input.peek(Token![=]) && !input.peek(Token![==]) && !input.peek(Token![=>])
 }
 fn name_index_of(
     names: &[&str],
-- 
2.43.0


From 9952602c90ae43de7ceaa2ffcc9ab1a384944ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 02/17] fix: report an unmatched closing delimiter in
 `#[derive(ToTokens)]` instead of panicking

---
 structmeta-derive/src/to_tokens.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 483bfa8..dc21e9f 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -185,6 +185,9 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
                             })));
                             field_to_tokens = false;
                         } else if let Some(delimiter) = delimiter_from_close_char(c) {
+                            if scopes.len() == 1 {
+                                bail!(token.span(), "mismatched closing delimiter `{}`.", c);
+                            }
                             let scope = scopes.pop().unwrap();
                             scopes
                                 .last_mut()
-- 
2.43.0


From 049a039f9e9c154e21a076408f1fd5578beda1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 03/17] fix: reject an unnamed `Option<Vec<_>>` parameter of
 `#[derive(StructMeta)]` with an error instead of panicking

---
 structmeta-derive/src/struct_meta.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index f7bfffd..2b6f835 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -304,6 +304,7 @@ impl<'a> Param<'a> {
 
         let info = ParamInfo::new(index, field, ty);
         let ty = NamedParamType::from_type(ty, !is_map && !is_option);
+        let is_option_vec = is_option && matches!(ty, NamedParamType::Value { is_vec: true, .. });
         let this = if is_map {
             Param::Rest(RestParam { info, ty })
         } else if let Some((name, name_span)) = name {
@@ -314,7 +315,7 @@ impl<'a> Param<'a> {
                 ty,
                 is_option,
             })
-        } else if let NamedParamType::Value { ty, is_vec } = ty {
+        } else if let (NamedParamType::Value { ty, is_vec }, false) = (ty, is_option_vec) {
             Param::Unnamed(UnnamedParam {
                 info,
                 ty,
-- 
2.43.0


From fab0b85d4062265227bae100a1ebdb180ebaee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 04/17] fix: make `#[derive(ToTokens)]` work for enums without
 variants

---
 structmeta-derive/src/to_tokens.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index dc21e9f..0147483 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -57,6 +57,9 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
             }
         });
     }
+    if arms.is_empty() {
+        return Ok(quote!(match *self {}));
+    }
     Ok(quote! {
         match self {
             #(#arms)*
-- 
2.43.0


From 1b62458fd6f255897285ebaa888c85a5ee9e1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 05/17] fix: refer to syn and structmeta by absolute paths in
 generated code

---
 structmeta-derive/src/parse.rs       | 4 ++--
 structmeta-derive/src/struct_meta.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index c540311..94294ad 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -46,7 +46,7 @@ fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
 fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
     ));
     let mut input_is_forked = false;
     let mut input_is_moved = false;
@@ -268,7 +268,7 @@ fn code_from_fields(
         Fields::Unit => quote!(),
     };
     Ok(quote! {
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
         #ts
         Ok(#self_path #init)
     })
diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 2b6f835..3a259d7 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -745,7 +745,7 @@ impl<'a> NamedParamType<'a> {
                         args
                     }
                 };
-                quote!(structmeta::NameArgs { name_span : span, args: #args })
+                quote!(::structmeta::NameArgs { name_span : span, args: #args })
             }
         }
     }
-- 
2.43.0


From 62b5be38ce888623d01f2300787d10b78ab1c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 06/17] fix: recognize field types passed as `$t:ty` from
 `macro_rules!`

---
 structmeta-derive/src/syn_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 1dd939a..657570b 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -71,6 +71,11 @@ pub fn is_type(ty: &Type, ns: &[&[&str]], name: &str) -> bool {
     }
 }
 pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
+    let mut ty = ty;
+    // `$t:ty` in `macro_rules!` is passed as a type in a None-delimited group.
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
     if let Type::Path(ty) = ty {
         if ty.qself.is_some() {
             return None;
-- 
2.43.0


From 794dfaa0a7183b5b0adf494af047c17a7e9f7c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 07/17] fix: support generic enums in `#[derive(Parse)]`

---
 structmeta-derive/src/parse.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 94294ad..b43ec80 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -20,7 +20,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 
     let ts = match &input.data {
         Data::Struct(data) => code_from_struct(data)?,
-        Data::Enum(data) => code_from_enum(&input.ident, data)?,
+        Data::Enum(data) => code_from_enum(data)?,
         Data::Union(_) => {
             bail!(Span::call_site(), "Not supported for union.")
         }
@@ -43,7 +43,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
     code_from_fields(quote!(Self), &data.fields, None)
 }
-fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
+fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
         use ::structmeta::helpers::exports::syn::ext::*;
@@ -57,15 +57,15 @@ fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
         let fn_ident = format_ident!("_parse_{}", &variant.ident);
         let mut peeks = Vec::new();
         let fn_expr = code_from_fields(
-            quote!(#self_ident::#variant_ident),
+            quote!(Self::#variant_ident),
             &variant.fields,
             Some(&mut peeks),
         )?;
         let fn_def = quote! {
             #[allow(non_snake_case)]
-            fn #fn_ident(input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<#self_ident> {
+            let #fn_ident = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
                 #fn_expr
-            }
+            };
         };
         let code = if peeks.is_empty() {
             if is_last && !input_is_forked {
-- 
2.43.0


From 11d5c060db4139cb8b7610ae243b20372a5eea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 08/17] fix: resolve local variables of generated code when
 fields come from `macro_rules!` fragments

---
 structmeta-derive/src/struct_meta.rs | 17 +++++++++++------
 structmeta-derive/src/syn_utils.rs   | 10 +++++++++-
 structmeta-derive/src/to_tokens.rs   |  6 ++++--
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 3a259d7..83a46c2 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -364,7 +364,8 @@ impl<'a> ParamInfo<'a> {
     fn build_let_parse(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
         let ty = &self.field.ty;
-        quote_spanned!(self.span()=> let #temp_ident = input.parse::<#ty>()?;)
+        let input = local_var("input");
+        quote_spanned!(self.span()=> let #temp_ident = #input.parse::<#ty>()?;)
     }
 }
 
@@ -398,10 +399,11 @@ impl NamedParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let arg_span = local_var("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Ok(#index)) => {
                 if #temp_ident.is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, #msg));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, #msg));
                 }
                 #temp_ident = Some(#expr);
             }
@@ -441,10 +443,11 @@ impl RestParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let arg_span = local_var("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Err(name)) => {
                 if #temp_ident.insert(name.to_string(), #expr).is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, format!("parameter `{}` specified more than once", name)));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, format!("parameter `{}` specified more than once", name)));
                 }
             }
         }
@@ -752,13 +755,15 @@ impl<'a> NamedParamType<'a> {
 }
 
 fn build_parse_expr(ty: &Type, span: Span) -> TokenStream {
-    quote_spanned!(span=> input.parse::<#ty>()?)
+    let input = local_var("input");
+    quote_spanned!(span=> #input.parse::<#ty>()?)
 }
 fn build_parse_expr_name_args(ty: &Type, is_vec: bool, span: Span) -> TokenStream {
+    let content = local_var("content");
     let value = if is_vec {
-        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&content)?.into_iter().collect())
+        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?.into_iter().collect())
     } else {
-        quote_spanned!(span=> content.parse::<#ty>()?)
+        quote_spanned!(span=> #content.parse::<#ty>()?)
     };
     quote! {
         {
diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 657570b..c6b6f4f 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 use syn::{
     DeriveInput, Path, PathArguments, PathSegment, Result, Token, Type, WherePredicate,
@@ -25,6 +25,14 @@ pub fn into_macro_output(input: Result<TokenStream>) -> proc_macro::TokenStream
     .into()
 }
 
+/// Local variable of generated code used in `quote_spanned!`.
+///
+/// A span of the input cannot be used for it, since the variable is not visible from the span
+/// if the input comes from a fragment of `macro_rules!`.
+pub fn local_var(name: &str) -> Ident {
+    Ident::new(name, Span::call_site())
+}
+
 pub fn impl_trait(
     input: &DeriveInput,
     trait_path: &Path,
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 0147483..7628dd1 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -164,7 +164,8 @@ impl Scope<'_> {
                 let ty = s.token_type_ident();
                 quote_spanned!(span=> ::structmeta::helpers::exports::syn::token::#ty::surround)
             };
-            let code = quote_spanned!(span=> #func(#ident, tokens, |tokens| { #ts }););
+            let tokens = local_var("tokens");
+            let code = quote_spanned!(span=> #func(#ident, #tokens, |#tokens| { #ts }););
             return Ok(code);
         }
         Ok(quote!())
@@ -209,7 +210,8 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
             }
         }
         if field_to_tokens {
-            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, tokens););
+            let tokens = local_var("tokens");
+            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, #tokens););
             scopes.last_mut().unwrap().ts.extend(code);
         }
     }
-- 
2.43.0


From a8a0b9f5dabab6c9162d681fa517913d682b6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 09/17] fix: refer to `Option`, `Result` and `std` macros by
 absolute paths in generated code

---
 structmeta-derive/src/parse.rs       |  8 +++---
 structmeta-derive/src/struct_meta.rs | 38 ++++++++++++++--------------
 structmeta/src/helpers.rs            |  4 +--
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index b43ec80..bbd93a0 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -77,9 +77,9 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
                 input_is_forked = true;
                 quote! {
                     let fork = input.fork();
-                    if let Ok(value) = #fn_ident(&fork) {
+                    if let ::std::result::Result::Ok(value) = #fn_ident(&fork) {
                         ::structmeta::helpers::exports::syn::parse::discouraged::Speculative::advance_to(input, &fork);
-                        return Ok(value);
+                        return ::std::result::Result::Ok(value);
                     }
                 }
             }
@@ -101,7 +101,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     }
     if !input_is_moved {
         ts.extend(quote! {
-            Err(input.error("parse failed."))
+            ::std::result::Result::Err(input.error("parse failed."))
         });
     }
     Ok(ts)
@@ -270,7 +270,7 @@ fn code_from_fields(
     Ok(quote! {
         use ::structmeta::helpers::exports::syn::ext::*;
         #ts
-        Ok(#self_path #init)
+        ::std::result::Result::Ok(#self_path #init)
     })
 }
 
diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 83a46c2..460df18 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -115,7 +115,7 @@ impl<'a> Params<'a> {
                 );
                 ts.extend(quote! {
                     if input.is_empty () {
-                        return Err(::structmeta::helpers::exports::syn::Error::new(input.span(), #msg));
+                        return ::std::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(input.span(), #msg));
                     }
                     input.parse::<::structmeta::helpers::exports::syn::Token![,]>()?;
                 });
@@ -137,7 +137,7 @@ impl<'a> Params<'a> {
             p.build_ctor_arg(false, &mut ctor_args);
         } else {
             arms_unnamed.push(quote! {
-                _ => { return Err(input.error("too many unnamed parameter")); }
+                _ => { return ::std::result::Result::Err(input.error("too many unnamed parameter")); }
             });
         }
         for p in self.named.values() {
@@ -193,7 +193,7 @@ impl<'a> Params<'a> {
         {
             quote! {
                 if named_used {
-                    return Err(input.error("cannot use unnamed parameter after named parameter"));
+                    return ::std::result::Result::Err(input.error("cannot use unnamed parameter after named parameter"));
                 }
                 match unnamed_index {
                     #(#arms_unnamed)*
@@ -202,7 +202,7 @@ impl<'a> Params<'a> {
             }
         } else {
             quote! {
-                return Err(input.error("cannot use unnamed parameter"));
+                return ::std::result::Result::Err(input.error("cannot use unnamed parameter"));
             }
         };
         let name_filter = self.name_filter.to_code();
@@ -219,7 +219,7 @@ impl<'a> Params<'a> {
                     }
                 }
                 is_next = true;
-                if let Some((index, span)) = ::structmeta::helpers::try_parse_name(input,
+                if let ::std::option::Option::Some((index, span)) = ::structmeta::helpers::try_parse_name(input,
                     &[#(#flag_names,)*],
                     #flag_rest,
                     &[#(#name_value_names,)*],
@@ -232,14 +232,14 @@ impl<'a> Params<'a> {
                     named_used = true;
                     match index {
                         #(#arms_named)*
-                        _ => unreachable!()
+                        _ => ::std::unreachable!()
                     }
 
                 } else {
                     #ts_parse_unnamed
                 }
             }
-            Ok(Self #ctor_args)
+            ::std::result::Result::Ok(Self #ctor_args)
         });
 
         ts
@@ -354,7 +354,7 @@ impl<'a> ParamInfo<'a> {
     fn build_let_none(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
         let ty = &self.ty;
-        quote!(let mut #temp_ident : Option<#ty> = None;)
+        quote!(let mut #temp_ident : ::std::option::Option<#ty> = ::std::option::Option::None;)
     }
     fn build_let_vec_new(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
@@ -391,7 +391,7 @@ struct UnnamedParam<'a> {
 impl NamedParam<'_> {
     fn build_let(&self) -> TokenStream {
         let temp_ident = &self.info.temp_ident;
-        quote!(let mut #temp_ident = None;)
+        quote!(let mut #temp_ident = ::std::option::Option::None;)
     }
     fn build_arm_parse(&self, index: usize, kind: ArgKind) -> TokenStream {
         let temp_ident = &self.info.temp_ident;
@@ -401,11 +401,11 @@ impl NamedParam<'_> {
         let var = kind.to_helper_name_index_variant();
         let arg_span = local_var("span");
         quote_spanned! { span=>
-            ::structmeta::helpers::NameIndex::#var(Ok(#index)) => {
+            ::structmeta::helpers::NameIndex::#var(::std::result::Result::Ok(#index)) => {
                 if #temp_ident.is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, #msg));
+                    return ::std::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, #msg));
                 }
-                #temp_ident = Some(#expr);
+                #temp_ident = ::std::option::Option::Some(#expr);
             }
         }
     }
@@ -445,9 +445,9 @@ impl RestParam<'_> {
         let var = kind.to_helper_name_index_variant();
         let arg_span = local_var("span");
         quote_spanned! { span=>
-            ::structmeta::helpers::NameIndex::#var(Err(name)) => {
+            ::structmeta::helpers::NameIndex::#var(::std::result::Result::Err(name)) => {
                 if #temp_ident.insert(name.to_string(), #expr).is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, format!("parameter `{}` specified more than once", name)));
+                    return ::std::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, ::std::format!("parameter `{}` specified more than once", name)));
                 }
             }
         }
@@ -464,7 +464,7 @@ impl UnnamedParam<'_> {
         let expr = build_parse_expr(self.ty, span);
         quote_spanned! { span=>
             #index => {
-                #temp_ident = Some(#expr);
+                #temp_ident = ::std::option::Option::Some(#expr);
             }
         }
     }
@@ -722,11 +722,11 @@ impl<'a> NamedParamType<'a> {
             }
             NamedParamType::NameValue { ty, is_option } => {
                 let value = if kind == ArgKind::Flag && *is_option {
-                    quote!(None)
+                    quote!(::std::option::Option::None)
                 } else {
                     let value = build_parse_expr(ty, span);
                     if *is_option {
-                        quote!(Some(#value))
+                        quote!(::std::option::Option::Some(#value))
                     } else {
                         value
                     }
@@ -739,11 +739,11 @@ impl<'a> NamedParamType<'a> {
                 is_vec,
             } => {
                 let args = if kind == ArgKind::Flag && *is_option {
-                    quote!(None)
+                    quote!(::std::option::Option::None)
                 } else {
                     let args = build_parse_expr_name_args(ty, *is_vec, span);
                     if *is_option {
-                        quote!(Some(#args))
+                        quote!(::std::option::Option::Some(#args))
                     } else {
                         args
                     }
diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index f213d53..48ff6a8 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -251,11 +251,11 @@ pub fn parse_macro_delimiter<'a>(
 macro_rules! helpers_parse_macro_delimiter {
     ($content:ident in $input:ident) => {
         match $crate::helpers::parse_macro_delimiter($input) {
-            Ok((token, content)) => {
+            ::std::result::Result::Ok((token, content)) => {
                 $content = content;
                 token
             }
-            Err(e) => return Err(e),
+            ::std::result::Result::Err(e) => return ::std::result::Result::Err(e),
         }
     };
 }
-- 
2.43.0


From c514f3d1d1177389e7d092e3a9a7963714c0c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 10/17] fix: do not name local variables of generated code
 after fields and variants

They gave `non_snake_case` warnings even if the type allows that lint, and the `#[allow]` for
variants was an error in crates that forbid it.
---
 structmeta-derive/src/parse.rs     |  5 ++---
 structmeta-derive/src/to_tokens.rs | 14 +++++++-------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index bbd93a0..e3d4695 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -54,7 +54,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
         let variant = &data.variants[index];
         let variant_ident = &variant.ident;
         let is_last = index == data.variants.len() - 1;
-        let fn_ident = format_ident!("_parse_{}", &variant.ident);
+        let fn_ident = format_ident!("_parse_{}", index);
         let mut peeks = Vec::new();
         let fn_expr = code_from_fields(
             quote!(Self::#variant_ident),
@@ -62,7 +62,6 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
             Some(&mut peeks),
         )?;
         let fn_def = quote! {
-            #[allow(non_snake_case)]
             let #fn_ident = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
                 #fn_expr
             };
@@ -276,7 +275,7 @@ fn code_from_fields(
 
 fn to_var_ident(index: usize, ident: &Option<Ident>) -> Ident {
     if let Some(ident) = ident {
-        format_ident!("_{}", ident)
+        format_ident!("_{}", index, span = ident.span())
     } else {
         format_ident!("_{}", index)
     }
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 7628dd1..9652c99 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -72,15 +72,15 @@ fn to_pattern(self_path: TokenStream, fields: &Fields) -> TokenStream {
         Fields::Unit => self_path,
         Fields::Unnamed(_) => {
             for (index, field) in fields.iter().enumerate() {
-                let var_ident = to_var_ident(Some(index), &field.ident);
+                let var_ident = to_var_ident(index, &field.ident);
                 vars.push(quote!(#var_ident));
             }
             quote!( #self_path( #(#vars,)*))
         }
         Fields::Named(_) => {
-            for field in fields.iter() {
+            for (index, field) in fields.iter().enumerate() {
                 let field_ident = &field.ident;
-                let var_ident = to_var_ident(None, field_ident);
+                let var_ident = to_var_ident(index, field_ident);
                 vars.push(quote!(#field_ident : #var_ident));
             }
             quote!( #self_path { #(#vars,)* } )
@@ -174,7 +174,7 @@ impl Scope<'_> {
 fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
     let mut scopes = vec![Scope::new(None)];
     for (index, field) in fields.iter().enumerate() {
-        let ident = to_var_ident(Some(index), &field.ident);
+        let ident = to_var_ident(index, &field.ident);
         let mut field_to_tokens = true;
         for attr in &field.attrs {
             if attr.path().is_ident("to_tokens") {
@@ -227,10 +227,10 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
     }
     unreachable!()
 }
-fn to_var_ident(index: Option<usize>, ident: &Option<Ident>) -> Ident {
+fn to_var_ident(index: usize, ident: &Option<Ident>) -> Ident {
     if let Some(ident) = ident {
-        format_ident!("_{}", ident)
+        format_ident!("_{}", index, span = ident.span())
     } else {
-        format_ident!("_{}", index.unwrap())
+        format_ident!("_{}", index)
     }
 }
-- 
2.43.0


From 0b50b82ea6aff45ae78e561922b0dba6a26975ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 11/17] fix: call trait methods of the prelude by path in
 generated code

`#[derive(StructMeta)]` failed with `#![no_implicit_prelude]` for lists in `name(...)` and for maps.
---
 structmeta-derive/src/struct_meta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 460df18..2ae28fa 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -446,7 +446,7 @@ impl RestParam<'_> {
         let arg_span = local_var("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(::std::result::Result::Err(name)) => {
-                if #temp_ident.insert(name.to_string(), #expr).is_some() {
+                if #temp_ident.insert(::std::string::ToString::to_string(&name), #expr).is_some() {
                     return ::std::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(#arg_span, ::std::format!("parameter `{}` specified more than once", name)));
                 }
             }
@@ -761,7 +761,7 @@ fn build_parse_expr(ty: &Type, span: Span) -> TokenStream {
 fn build_parse_expr_name_args(ty: &Type, is_vec: bool, span: Span) -> TokenStream {
     let content = local_var("content");
     let value = if is_vec {
-        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?.into_iter().collect())
+        quote_spanned!(span=> ::std::iter::Iterator::collect(::std::iter::IntoIterator::into_iter(::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?)))
     } else {
         quote_spanned!(span=> #content.parse::<#ty>()?)
     };
-- 
2.43.0


From 039d793954fe25052a28bc1b6d5448041ab50015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 12/17] fix: do not panic when an enum variant parsed on a fork
 ends with a TokenStream

---
 structmeta-derive/src/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index e3d4695..bc1cdc0 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -74,9 +74,13 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
                 }
             } else {
                 input_is_forked = true;
+                // Parsing a `TokenStream` leaves the fork at the empty cursor, to which `advance_to` cannot move.
                 quote! {
                     let fork = input.fork();
                     if let ::std::result::Result::Ok(value) = #fn_ident(&fork) {
+                        if fork.cursor() == ::structmeta::helpers::exports::syn::buffer::Cursor::empty() {
+                            return #fn_ident(input);
+                        }
                         ::structmeta::helpers::exports::syn::parse::discouraged::Speculative::advance_to(input, &fork);
                         return ::std::result::Result::Ok(value);
                     }
-- 
2.43.0


From f9129700a1a6e12a685346cfba5e02efa2256ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 13/17] fix: do not parse an enum variant that ends with a
 TokenStream twice

---
 structmeta-derive/src/parse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index bc1cdc0..166fba5 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -74,12 +74,13 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
                 }
             } else {
                 input_is_forked = true;
-                // Parsing a `TokenStream` leaves the fork at the empty cursor, to which `advance_to` cannot move.
+                // Parsing a `TokenStream` leaves the fork at the empty cursor, to which `advance_to` cannot move
+                // unless `input` is there too.
                 quote! {
                     let fork = input.fork();
                     if let ::std::result::Result::Ok(value) = #fn_ident(&fork) {
                         if fork.cursor() == ::structmeta::helpers::exports::syn::buffer::Cursor::empty() {
-                            return #fn_ident(input);
+                            input.parse::<::structmeta::helpers::exports::proc_macro2::TokenStream>()?;
                         }
                         ::structmeta::helpers::exports::syn::parse::discouraged::Speculative::advance_to(input, &fork);
                         return ::std::result::Result::Ok(value);
-- 
2.43.0


From f2e77870daae85164773582fb11f936c40f1507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 14/17] fix: do not let arguments of peek refer to local
 variables of generated code

---
 structmeta-derive/src/parse.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 166fba5..6e3ec1a 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -25,8 +25,9 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
             bail!(Span::call_site(), "Not supported for union.")
         }
     };
+    let parse_input = input_ident();
     let ts = quote! {
-        fn parse(input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<Self> {
+        fn parse(#parse_input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<Self> {
             #ts
         }
     };
@@ -48,13 +49,16 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     ts.extend(quote!(
         use ::structmeta::helpers::exports::syn::ext::*;
     ));
+    // Arguments of `peek` are written by the user and must not refer to local variables.
+    let input = input_ident();
+    let fork = Ident::new("fork", Span::mixed_site());
     let mut input_is_forked = false;
     let mut input_is_moved = false;
     for index in 0..data.variants.len() {
         let variant = &data.variants[index];
         let variant_ident = &variant.ident;
         let is_last = index == data.variants.len() - 1;
-        let fn_ident = format_ident!("_parse_{}", index);
+        let fn_ident = format_ident!("_parse_{}", index, span = Span::mixed_site());
         let mut peeks = Vec::new();
         let fn_expr = code_from_fields(
             quote!(Self::#variant_ident),
@@ -62,7 +66,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
             Some(&mut peeks),
         )?;
         let fn_def = quote! {
-            let #fn_ident = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
+            let #fn_ident = |#input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
                 #fn_expr
             };
         };
@@ -70,19 +74,19 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
             if is_last && !input_is_forked {
                 input_is_moved = true;
                 quote! {
-                    #fn_ident(input)
+                    #fn_ident(#input)
                 }
             } else {
                 input_is_forked = true;
                 // Parsing a `TokenStream` leaves the fork at the empty cursor, to which `advance_to` cannot move
                 // unless `input` is there too.
                 quote! {
-                    let fork = input.fork();
-                    if let ::std::result::Result::Ok(value) = #fn_ident(&fork) {
-                        if fork.cursor() == ::structmeta::helpers::exports::syn::buffer::Cursor::empty() {
-                            input.parse::<::structmeta::helpers::exports::proc_macro2::TokenStream>()?;
+                    let #fork = #input.fork();
+                    if let ::std::result::Result::Ok(value) = #fn_ident(&#fork) {
+                        if #fork.cursor() == ::structmeta::helpers::exports::syn::buffer::Cursor::empty() {
+                            #input.parse::<::structmeta::helpers::exports::proc_macro2::TokenStream>()?;
                         }
-                        ::structmeta::helpers::exports::syn::parse::discouraged::Speculative::advance_to(input, &fork);
+                        ::structmeta::helpers::exports::syn::parse::discouraged::Speculative::advance_to(#input, &#fork);
                         return ::std::result::Result::Ok(value);
                     }
                 }
@@ -94,7 +98,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
             }
             quote! {
                 if #(#preds )&&* {
-                    return #fn_ident(&input);
+                    return #fn_ident(&#input);
                 }
             }
         };
@@ -105,11 +109,14 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     }
     if !input_is_moved {
         ts.extend(quote! {
-            ::std::result::Result::Err(input.error("parse failed."))
+            ::std::result::Result::Err(#input.error("parse failed."))
         });
     }
     Ok(ts)
 }
+fn input_ident() -> Ident {
+    Ident::new("input", Span::mixed_site())
+}
 fn to_predicate(index: usize, peek: &PeekItem) -> Result<TokenStream> {
     let peek_ident: Ident = match index {
         0 => parse_quote!(peek),
@@ -118,7 +125,8 @@ fn to_predicate(index: usize, peek: &PeekItem) -> Result<TokenStream> {
         _ => bail!(peek.span, "more than three `#[parse(peek)]` was specified."),
     };
     let peek_arg = &peek.arg;
-    Ok(quote!(input.#peek_ident(#peek_arg)))
+    let input = input_ident();
+    Ok(quote!(#input.#peek_ident(#peek_arg)))
 }
 
 struct Scope {
@@ -143,7 +151,7 @@ fn code_from_fields(
     mut peeks: Option<&mut Vec<PeekItem>>,
 ) -> Result<TokenStream> {
     let mut scopes = vec![Scope {
-        input: parse_quote!(input),
+        input: input_ident(),
         close: None,
     }];
     let mut ts = TokenStream::new();
-- 
2.43.0


From 405061a194d42dbf6341622b5ce7c73161e9e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 15/17] fix: do not import IdentExt by name into generated code

---
 structmeta-derive/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 6e3ec1a..19a9814 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -47,7 +47,7 @@ fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
 fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
-        use ::structmeta::helpers::exports::syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::IdentExt as _;
     ));
     // Arguments of `peek` are written by the user and must not refer to local variables.
     let input = input_ident();
@@ -280,7 +280,7 @@ fn code_from_fields(
         Fields::Unit => quote!(),
     };
     Ok(quote! {
-        use ::structmeta::helpers::exports::syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::IdentExt as _;
         #ts
         ::std::result::Result::Ok(#self_path #init)
     })
-- 
2.43.0


From 4fc929171a59fb512dbe34c4d4811c593d9911ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 16/17] fix: name a constant parameter in braces in generated
 impls

---
 structmeta-derive/src/syn_utils.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index c6b6f4f..6e7afb6 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -1,8 +1,8 @@
 use proc_macro2::{Ident, Span, TokenStream};
-use quote::quote;
+use quote::{ToTokens, quote};
 use syn::{
-    DeriveInput, Path, PathArguments, PathSegment, Result, Token, Type, WherePredicate,
-    punctuated::Punctuated,
+    DeriveInput, GenericParam, Path, PathArguments, PathSegment, Result, Token, Type,
+    WherePredicate, punctuated::Punctuated,
 };
 
 macro_rules! bail {
@@ -40,7 +40,17 @@ pub fn impl_trait(
     contents: TokenStream,
 ) -> TokenStream {
     let ty = &input.ident;
-    let (impl_g, ty_g, where_clause) = input.generics.split_for_impl();
+    let (impl_g, _, where_clause) = input.generics.split_for_impl();
+    // A const argument without braces would be taken for a type of this name, if there is one.
+    let args = input.generics.params.iter().map(|param| match param {
+        GenericParam::Lifetime(param) => param.lifetime.to_token_stream(),
+        GenericParam::Type(param) => param.ident.to_token_stream(),
+        GenericParam::Const(param) => {
+            let ident = &param.ident;
+            quote!({ #ident })
+        }
+    });
+    let ty_g = (!input.generics.params.is_empty()).then(|| quote!(<#(#args,)*>));
     let mut wheres = wheres.to_vec();
     if let Some(where_clause) = where_clause {
         wheres.extend(where_clause.predicates.iter().cloned());
-- 
2.43.0


From fbb43577ac5a887bf2d2ba27f25af78ee0a8abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:56 +0000
Subject: [PATCH 17/17] fix: peek enum variants token by token, not token tree
 by token tree

---
 structmeta-derive/src/parse.rs | 50 ++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 19a9814..2fa436b 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -51,7 +51,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     ));
     // Arguments of `peek` are written by the user and must not refer to local variables.
     let input = input_ident();
-    let fork = Ident::new("fork", Span::mixed_site());
+    let fork = fork_ident();
     let mut input_is_forked = false;
     let mut input_is_moved = false;
     for index in 0..data.variants.len() {
@@ -92,12 +92,9 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
                 }
             }
         } else {
-            let mut preds = Vec::new();
-            for (index, peek) in peeks.into_iter().enumerate() {
-                preds.push(to_predicate(index, &peek)?);
-            }
+            let pred = to_predicate(&peeks, &input, &fork)?;
             quote! {
-                if #(#preds )&&* {
+                if #pred {
                     return #fn_ident(&#input);
                 }
             }
@@ -117,16 +114,24 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
 fn input_ident() -> Ident {
     Ident::new("input", Span::mixed_site())
 }
-fn to_predicate(index: usize, peek: &PeekItem) -> Result<TokenStream> {
-    let peek_ident: Ident = match index {
-        0 => parse_quote!(peek),
-        1 => parse_quote!(peek2),
-        2 => parse_quote!(peek3),
-        _ => bail!(peek.span, "more than three `#[parse(peek)]` was specified."),
-    };
-    let peek_arg = &peek.arg;
-    let input = input_ident();
-    Ok(quote!(#input.#peek_ident(#peek_arg)))
+fn fork_ident() -> Ident {
+    Ident::new("fork", Span::mixed_site())
+}
+fn to_predicate(peeks: &[PeekItem], input: &Ident, fork: &Ident) -> Result<TokenStream> {
+    if let Some(peek) = peeks.get(3) {
+        bail!(peek.span, "more than three `#[parse(peek)]` was specified.");
+    }
+    // `peek2` and `peek3` count token trees, but a token may consist of several of them, such as `->` or `-1`.
+    let mut pred = quote!(true);
+    for (index, PeekItem { arg, parse, .. }) in peeks.iter().enumerate().rev() {
+        pred = match (index, index + 1 == peeks.len()) {
+            (0, true) => quote!(#input.peek(#arg)),
+            (0, false) => quote!(#input.peek(#arg) && { let #fork = &#input.fork(); #parse && #pred }),
+            (_, true) => quote!(#fork.peek(#arg)),
+            (_, false) => quote!(#fork.peek(#arg) && #parse && #pred),
+        };
+    }
+    Ok(pred)
 }
 
 struct Scope {
@@ -136,6 +141,8 @@ struct Scope {
 struct PeekItem {
     span: Span,
     arg: TokenStream,
+    /// Moves `fork` to the next token and returns whether the token was parsed.
+    parse: TokenStream,
 }
 fn to_parse_bracket(c: char) -> Ident {
     match c {
@@ -245,7 +252,16 @@ fn code_from_fields(
                 } else {
                     quote!(#ty)
                 };
-                peeks.push(PeekItem { span, arg });
+                let fork = fork_ident();
+                let parse = if !use_parse {
+                    quote!(::structmeta::helpers::parse_macro_delimiter(#fork))
+                } else if is_any {
+                    quote!(<#ty>::parse_any(#fork))
+                } else {
+                    quote!(#fork.parse::<#ty>())
+                };
+                let parse = quote!(#parse.is_ok());
+                peeks.push(PeekItem { span, arg, parse });
             }
         }
         if is_root && peek.is_none() && non_peek_field.is_none() {
-- 
2.43.0

