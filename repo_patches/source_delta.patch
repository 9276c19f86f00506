From 968c157e47dace713b857e4cd38a7cd4ae59ff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 1/7] fix: do not panic on try_setter for a raw identifier

---
 derive_builder_core/src/setter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 392221f..52b22af 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -149,7 +149,8 @@ impl<'a> ToTokens for Setter<'a> {
             if self.try_setter {
                 let try_ty_params =
                     quote!(<VALUE: #crate_root::export::core::convert::TryInto<#ty>>);
-                let try_ident = syn::Ident::new(&format!("try_{}", ident), Span::call_site());
+                // `format_ident` drops the `r#` of a raw identifier, which is not allowed in the middle
+                let try_ident = format_ident!("try_{}", ident, span = Span::call_site());
 
                 let mut converted = quote! {converted};
                 if builder_field_is_option {
-- 
2.43.0


From e3d08a8ebb61b5c2e419f800eb4e9a5053c53de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 2/7] fix: setter(custom = false) no longer panics on a hidden
 field

It used to force a setter for a field without storage in the builder.
---
 derive_builder_core/src/macro_options/darling_opts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 3894b78..1a85807 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -262,8 +262,8 @@ impl FieldLevelSetter {
     /// Get whether the setter should be emitted. The rules are the same as
     /// for `field_enabled`, except we only skip the setter if `setter(custom)` is present.
     pub fn setter_enabled(&self) -> Option<bool> {
-        if self.custom.is_some() {
-            return self.custom.map(|x| !x);
+        if self.custom == Some(true) {
+            return Some(false);
         }
 
         self.field_enabled()
-- 
2.43.0


From 961f18a51b5457a7394a7d874d01bf298a354937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 3/7] fix: report a malformed builder_*_attr instead of
 panicking

`#[builder_field_attr()]` or two attributes in one wrapper made parse_quote panic.
---
 derive_builder_core/src/macro_options/darling_opts.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 1a85807..0e04ca9 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -6,7 +6,7 @@ use crate::BuildMethod;
 use darling::util::{Flag, PathList, SpannedValue};
 use darling::{Error, FromMeta};
 use proc_macro2::Span;
-use syn::{spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
+use syn::{parse::Parser, spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
 
 use crate::{
     BlockContents, Builder, BuilderField, BuilderFieldType, BuilderPattern, DefaultExpression,
@@ -484,7 +484,10 @@ fn unnest_from_one_attribute(attr: syn::Attribute) -> darling::Result<Attribute>
         Meta::NameValue(_) => Err(Error::unsupported_format("name-value").with_span(&meta)),
         Meta::List(list) => {
             let inner = list.tokens;
-            Ok(parse_quote_spanned!(original_span=> #pound [ #inner ]))
+            Attribute::parse_outer
+                .parse2(quote_spanned!(original_span=> #pound [ #inner ]))
+                .map(|mut attrs| attrs.remove(0))
+                .map_err(Error::from)
         }
     }
 }
-- 
2.43.0


From bb65654f6a77102a63018c8cbe08e6e3e87bf608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 4/7] fix: move or clone fields in build according to build's
 own receiver

A field-level owned pattern in a builder whose build method borrows it
moved out of the borrow and did not compile for types that are not Copy.
---
 derive_builder_core/src/macro_options/darling_opts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 0e04ca9..edea90a 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -886,7 +886,8 @@ impl<'a> FieldWithDefaults<'a> {
             crate_root: &self.parent.crate_root,
             field_enabled: self.field_enabled(),
             field_ident: self.field_ident(),
-            builder_pattern: self.pattern(),
+            // `build` takes `self` as the struct-level pattern says, whatever the field's setter does
+            builder_pattern: self.parent.pattern,
             default_value: self.field.default.as_ref(),
             use_default_struct: self.use_parent_default(),
             conversion: self.conversion(),
-- 
2.43.0


From 8dd3f73b93cc393982eca46cd3c3195f7a1dfb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 5/7] fix: report a union as unsupported instead of panicking

---
 derive_builder_core/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/derive_builder_core/src/lib.rs b/derive_builder_core/src/lib.rs
index 6d2e71e..73a063e 100644
--- a/derive_builder_core/src/lib.rs
+++ b/derive_builder_core/src/lib.rs
@@ -55,6 +55,16 @@ const DEFAULT_STRUCT_NAME: &str = "__default";
 
 /// Derive a builder for a struct
 pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
+    // The shape check generated by darling panics on unions.
+    if let syn::Data::Union(_) = ast.data {
+        return darling::Error::unsupported_shape_with_expected(
+            "union",
+            &"struct with named fields",
+        )
+        .with_span(&ast.ident)
+        .write_errors();
+    }
+
     let opts = match macro_options::Options::from_derive_input(&ast) {
         Ok(val) => val,
         Err(err) => {
-- 
2.43.0


From 3e63f3c15cb6be3c024d1ff9288ce5561732c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:45 +0000
Subject: [PATCH 6/7] fix: require Clone in the impl blocks of an owned builder
 with an immutable setter

---
 .../src/macro_options/darling_opts.rs          | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index edea90a..afec7c7 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -644,6 +644,22 @@ impl Options {
         self.pattern.requires_clone() || self.fields().any(|f| f.pattern().requires_clone())
     }
 
+    /// The pattern which determines the bounds of the builder's impl blocks.
+    ///
+    /// This is the struct-level pattern, except that a field with an immutable setter makes the
+    /// impl blocks of an owned builder require `Clone` for the type parameters: that setter clones
+    /// the builder.
+    fn impl_pattern(&self) -> BuilderPattern {
+        if self
+            .fields()
+            .any(|f| f.setter_enabled() && f.pattern() == BuilderPattern::Immutable)
+        {
+            BuilderPattern::Immutable
+        } else {
+            self.pattern
+        }
+    }
+
     /// Get an iterator over the input struct's fields which pulls fallback
     /// values from struct-level settings.
     pub fn fields(&self) -> FieldIter {
@@ -662,7 +678,7 @@ impl Options {
             crate_root: &self.crate_root,
             enabled: true,
             ident: self.builder_ident(),
-            pattern: self.pattern,
+            pattern: self.impl_pattern(),
             derives: &self.derive,
             struct_attrs: &self.attrs.struct_attrs,
             impl_attrs: &self.attrs.impl_attrs,
-- 
2.43.0


From 402fb96b7f12033d35c3040041ce71d99a7b1174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:08 +0000
Subject: [PATCH 7/7] fix: make each setters work with a custom builder field
 type

---
 derive_builder_core/src/setter.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 52b22af..de37774 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -177,17 +177,18 @@ impl<'a> ToTokens for Setter<'a> {
                 let ident_each = &each.name;
 
                 // Access the collection to extend, initialising with default value if necessary.
-                let get_initialized_collection = if stripped_option {
+                let get_initialized_collection = match (builder_field_is_option, stripped_option) {
                     // Outer (builder) Option -> Inner (field) Option -> collection.
-                    quote!(get_or_insert_with(|| Some(
+                    (true, true) => quote!(.get_or_insert_with(|| Some(
                         #crate_root::export::core::default::Default::default()
                     ))
-                    .get_or_insert_with(#crate_root::export::core::default::Default::default))
-                } else {
-                    // Outer (builder) Option -> collection.
-                    quote!(get_or_insert_with(
+                    .get_or_insert_with(#crate_root::export::core::default::Default::default)),
+                    // One Option, of the builder or of a custom builder field type -> collection.
+                    (true, false) | (false, true) => quote!(.get_or_insert_with(
                         #crate_root::export::core::default::Default::default
-                    ))
+                    )),
+                    // The custom builder field type is the collection.
+                    (false, false) => quote!(),
                 };
 
                 let ty_params: TokenStream;
@@ -213,7 +214,7 @@ impl<'a> ToTokens for Setter<'a> {
                     {
                         let mut new = #self_into_return_ty;
                         new.#field_ident
-                            .#get_initialized_collection
+                            #get_initialized_collection
                             .extend(#crate_root::export::core::option::Option::Some(#into_item));
                         new
                     }
-- 
2.43.0

