From 6bc10d6889c4e4802aecbd394712756d461836d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:55 +0000
Subject: [PATCH 01/21] fix: expand SVG and MathML elements to the modules
 leptos 0.7 has

---
 leptos-mview-core/src/expand.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 7acabe7..c0bd57b 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -86,8 +86,16 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
     let tag_path = match element.tag() {
         Tag::Component(..) => return None,
         Tag::Html(ident) => quote! { ::leptos::tachys::html::element::#ident() },
-        Tag::Svg(ident) => quote! { ::leptos::tachys::svg::element::#ident() },
-        Tag::Math(ident) => quote! { ::leptos::tachys::math::element::#ident() },
+        Tag::Svg(ident) => {
+            // `use_` is an alias for the `use` element
+            let ident = if ident.unraw() == "use_" {
+                syn::Ident::new_raw("use", ident.span())
+            } else {
+                ident.clone()
+            };
+            quote! { ::leptos::tachys::svg::#ident() }
+        }
+        Tag::Math(ident) => quote! { ::leptos::tachys::mathml::#ident() },
         Tag::WebComponent(ident) => {
             let ident = ident.to_lit_str();
             let custom = syn::Ident::new("custom", ident.span());
-- 
2.43.0


From b1933ca5e23d23152c853d76edd02aef4852e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:13 +0000
Subject: [PATCH 02/21] fix: make prop: directives on components expand to
 tachys' prop function

---
 leptos-mview-core/src/expand/subroutines.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 70852e5..b7ba70c 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -411,10 +411,10 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "prop" => {
-            let prop = directive.key.to_ident_or_emit();
+            let key = directive.key.to_lit_str();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
             quote! {
-                ::leptos::tachys::html::property::#prop(#value)
+                ::leptos::tachys::html::property::#dir(#key, #value)
             }
         }
         "on" => {
-- 
2.43.0


From 931345746ac534266bb74e5725c22eeb59855052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 03/21] fix: expand slots in the order they are written

---
 leptos-mview-core/src/expand.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index c0bd57b..ce63698 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -3,8 +3,6 @@
 // putting specific `-> TokenStream` implementations here to have it all
 // grouped instead of scattered throughout struct impls.
 
-use std::collections::HashMap;
-
 use proc_macro2::{Span, TokenStream};
 use proc_macro_error2::emit_error;
 use quote::{quote, quote_spanned};
@@ -345,11 +343,12 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
 /// ```
 /// Where the slot's name is converted to snake_case for the method name.
 fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStream {
-    // collect to hashmap //
+    // group by slot name //
 
     // Mapping from the slot name (component, UpperCamelCase name, not snake_case)
-    // to a vec of the each slot's expansion.
-    let mut slot_children = HashMap::<syn::Ident, Vec<TokenStream>>::new();
+    // to a vec of the each slot's expansion, in order of first appearance (the
+    // expansion must not depend on the iteration order of a hash map).
+    let mut slot_children = Vec::<(syn::Ident, Vec<TokenStream>)>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
             panic!("called `slots_to_tokens` on non-slot element")
@@ -363,10 +362,10 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
 
         let slot_component =
             component_to_tokens::<true>(el).expect("checked that element is a component");
-        slot_children
-            .entry(slot_name)
-            .or_default()
-            .push(slot_component);
+        match slot_children.iter_mut().find(|(name, _)| *name == slot_name) {
+            Some((_, slots)) => slots.push(slot_component),
+            None => slot_children.push((slot_name, vec![slot_component])),
+        }
     }
 
     // convert to tokens //
-- 
2.43.0


From e9538ba3f1a832bf8a33f7103d7e0b5f2c1c2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 04/21] fix: pass slots nested in another slot to that slot

---
 leptos-mview-core/src/expand.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index ce63698..e4254ba 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -287,6 +287,7 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
                 #path::builder()
                     #attrs
                     #children
+                    #slot_children
                     #build
             )
         })
-- 
2.43.0


From 78c9ebd33a9f42b064da5edf7db72f80a8c97679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 05/21] fix: reject slots inside elements instead of dropping
 them

---
 leptos-mview-core/src/expand.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index e4254ba..c9bce78 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -119,6 +119,16 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    // slots only make sense on something that has a builder method for them
+    if let Some(children) = element.children() {
+        for slot in children.slot_children() {
+            emit_error!(
+                slot.tag().span(),
+                "slots should be inside a parent that supports slots"
+            );
+        }
+    }
+
     let children = element
         .children()
         .map(|children| xml_child_methods_tokens(children.element_children()));
-- 
2.43.0


From edc625f1823d68b5f591f745ddc35bcef6a44c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 06/21] fix: reject closure arguments on elements instead of
 dropping them

---
 leptos-mview-core/src/expand.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index c9bce78..9d08709 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -129,6 +129,13 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    if let Some(args) = element.children_args() {
+        emit_error!(
+            args.span(),
+            "closure arguments are only supported on the children of components"
+        );
+    }
+
     let children = element
         .children()
         .map(|children| xml_child_methods_tokens(children.element_children()));
-- 
2.43.0


From 74d3085cc55d7cc32cc5202c32e7f1d9d2d257e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:37 +0000
Subject: [PATCH 07/21] fix: don't panic on identifiers that can't be raw

---
 leptos-mview-core/src/ast/ident.rs | 15 +++++++++++++--
 leptos-mview-core/src/expand.rs    |  4 ++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/leptos-mview-core/src/ast/ident.rs b/leptos-mview-core/src/ast/ident.rs
index a61a9e9..771e9a5 100644
--- a/leptos-mview-core/src/ast/ident.rs
+++ b/leptos-mview-core/src/ast/ident.rs
@@ -95,14 +95,25 @@ impl KebabIdent {
     /// covers the full ident on nightly. See [`KebabIdent::span`] for more
     /// details.
     ///
-    /// The ident will also be a raw identifier.
+    /// The ident will also be a raw identifier, unless it can't be one (see
+    /// [`raw_ident`]).
     pub fn to_snake_ident(&self) -> syn::Ident {
         let snake_string = self.repr().replace('-', "_");
         // This will always be valid as the first 'section' must be a `-` or rust ident,
         // which means it starts with `_` or another valid identifier beginning. The int
         // literals within the ident (e.g. between `-`s, like `blue-100`) are allowed
         // since the ident does not start with a number.
-        syn::Ident::new_raw(&snake_string, self.span())
+        raw_ident(&snake_string, self.span())
+    }
+}
+
+/// Creates a raw identifier, or a regular one if `name` is one of the few words
+/// that can't be raw (`syn::Ident::new_raw` panics on those).
+pub fn raw_ident(name: &str, span: Span) -> syn::Ident {
+    if matches!(name, "_" | "self" | "Self" | "super" | "crate") {
+        syn::Ident::new(name, span)
+    } else {
+        syn::Ident::new_raw(name, span)
     }
 }
 
diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 9d08709..3041005 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -10,7 +10,7 @@ use syn::{ext::IdentExt, parse_quote, parse_quote_spanned, spanned::Spanned};
 
 use crate::ast::{
     attribute::{directive::Directive, selector::SelectorShorthand},
-    Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
+    raw_ident, Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
 };
 
 /// Functions for specific parts of an element's expansion.
@@ -390,7 +390,7 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     slot_children
         .into_iter()
         .map(|(slot_name, slot_tokens)| {
-            let method = syn::Ident::new_raw(
+            let method = raw_ident(
                 &utils::upper_camel_to_snake_case(&slot_name.unraw().to_string()),
                 slot_name.span(),
             );
-- 
2.43.0


From 16d0cbf09407717d6ff5092e38219da2d3f6ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:37 +0000
Subject: [PATCH 08/21] fix: report slots that aren't components instead of
 panicking

---
 leptos-mview-core/src/expand.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 3041005..6e601b4 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -340,7 +340,7 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
 /// Converts a list of slots to a bunch of methods to be called on the parent
 /// component.
 ///
-/// The iterator must have only elements that are slots.
+/// An error is emitted for any element that can't be a slot (not a component).
 ///
 /// Slots are expanded from:
 /// ```ignore
@@ -369,7 +369,11 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     let mut slot_children = Vec::<(syn::Ident, Vec<TokenStream>)>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
-            panic!("called `slots_to_tokens` on non-slot element")
+            emit_error!(
+                el.tag().span(),
+                "slot names must be components, in UpperCamelCase"
+            );
+            continue;
         };
         let slot_name = if let Some(ident) = path.get_ident() {
             ident.clone()
-- 
2.43.0


From 03975dee9e2472181ffc48e5dcfa4eec4c669355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:58 +0000
Subject: [PATCH 09/21] fix: join multiple id selectors on an element into one
 id attribute

---
 leptos-mview-core/src/expand/subroutines.rs | 23 ++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index b7ba70c..e5331f7 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -14,6 +14,7 @@ use crate::{
         KebabIdentOrStr, NodeChild, TagKind, Value,
     },
     expand::{children_fragment_tokens, emit_error_if_modifier},
+    span,
 };
 
 ////////////////////////////////////////////////////////////////
@@ -120,8 +121,8 @@ impl From<&str> for AttributeKind {
 // ------------------- html/xml only ------------------- //
 ///////////////////////////////////////////////////////////
 
-/// Converts element class/id selector shorthands into a series of `.classes`
-/// and `.id` calls.
+/// Converts element class/id selector shorthands into a series of `.class`
+/// calls, and a single `.id` call.
 pub(super) fn xml_selectors_tokens(selectors: &SelectorShorthands) -> TokenStream {
     let (classes, ids): (Vec<_>, Vec<_>) = selectors
         .iter()
@@ -133,13 +134,21 @@ pub(super) fn xml_selectors_tokens(selectors: &SelectorShorthands) -> TokenStrea
         quote! { .#method((#class_name, true)) }
     });
 
-    let id_methods = ids.iter().map(|id| {
-        let method = syn::Ident::new("id", id.prefix().span());
-        let id_name = id.ident().to_str_colored();
-        quote! { .#method(#id_name) }
+    // all the ids need to be collected together, as multiple `.id(...)` calls
+    // create multiple `id=...` attributes on the element
+    let id_method = ids.first().map(|first| {
+        let method = syn::Ident::new("id", first.prefix().span());
+        let colored_ids = ids.iter().map(|id| span::color_all(id.ident().spans()));
+        let dummy_items = colored_ids.flatten();
+        let joined_ids = ids
+            .iter()
+            .map(|id| id.ident().repr())
+            .collect::<Vec<_>>()
+            .join(" ");
+        quote! { .#method({#(#dummy_items)* #joined_ids}) }
     });
 
-    quote! { #(#class_methods)* #(#id_methods)* }
+    quote! { #(#class_methods)* #id_method }
 }
 
 pub(super) fn xml_kv_attribute_tokens(attr: &KvAttr, element_tag: TagKind) -> TokenStream {
-- 
2.43.0


From 05d3aa3070d591fbecd31e636095a83d8e8a1d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:17 +0000
Subject: [PATCH 10/21] fix: support more than 26 children

---
 leptos-mview-core/src/expand.rs             |  3 ++-
 leptos-mview-core/src/expand/subroutines.rs | 14 ++++++++++----
 leptos-mview-core/src/expand/utils.rs       | 19 +++++++++++++++++++
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 6e601b4..453f7f0 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -5,7 +5,7 @@
 
 use proc_macro2::{Span, TokenStream};
 use proc_macro_error2::emit_error;
-use quote::{quote, quote_spanned};
+use quote::{quote, quote_spanned, ToTokens};
 use syn::{ext::IdentExt, parse_quote, parse_quote_spanned, spanned::Spanned};
 
 use crate::ast::{
@@ -45,6 +45,7 @@ pub fn children_fragment_tokens<'a>(
     children: impl Iterator<Item = &'a NodeChild>,
     span: Span,
 ) -> TokenStream {
+    let children = nest_in_tuples(children.map(ToTokens::to_token_stream).collect());
     quote_spanned! { span=>
         ::leptos::prelude::View::new((
             #( #children, )*
diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index e5331f7..05cf739 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use proc_macro_error2::emit_error;
-use quote::{quote, quote_spanned};
+use quote::{quote, quote_spanned, ToTokens};
 use syn::{ext::IdentExt, spanned::Spanned};
 
 use crate::{
@@ -13,7 +13,7 @@ use crate::{
         },
         KebabIdentOrStr, NodeChild, TagKind, Value,
     },
-    expand::{children_fragment_tokens, emit_error_if_modifier},
+    expand::{children_fragment_tokens, emit_error_if_modifier, nest_in_tuples},
     span,
 };
 
@@ -243,9 +243,15 @@ pub(super) fn xml_spread_tokens(attr: &SpreadAttr) -> TokenStream {
 pub(super) fn xml_child_methods_tokens<'a>(
     children: impl Iterator<Item = &'a NodeChild>,
 ) -> TokenStream {
+    let (spans, children): (Vec<_>, Vec<_>) = children
+        .map(|child| (child.span(), child.to_token_stream()))
+        .unzip();
+
     let mut ts = TokenStream::new();
-    for child in children {
-        let child_method = syn::Ident::new("child", child.span());
+    // if there are too many children, each tuple of children takes the span of one
+    // of the children.
+    for (child, span) in nest_in_tuples(children).iter().zip(spans) {
+        let child_method = syn::Ident::new("child", span);
         ts.extend(quote! {
             .#child_method(#child)
         });
diff --git a/leptos-mview-core/src/expand/utils.rs b/leptos-mview-core/src/expand/utils.rs
index f253448..1593851 100644
--- a/leptos-mview-core/src/expand/utils.rs
+++ b/leptos-mview-core/src/expand/utils.rs
@@ -1,4 +1,6 @@
+use proc_macro2::TokenStream;
 use proc_macro_error2::{abort, emit_error};
+use quote::quote;
 use syn::{parse_quote, spanned::Spanned};
 
 #[allow(clippy::doc_markdown)]
@@ -28,6 +30,23 @@ pub fn emit_error_if_modifier(m: Option<&syn::Ident>) {
     }
 }
 
+/// The maximum length of a tuple that leptos can render.
+const MAX_TUPLE_LEN: usize = 26;
+
+/// Groups `views` into tuples (of tuples) until there are few enough of them to
+/// be put in a single tuple.
+///
+/// `views` are unchanged if there already are few enough.
+pub fn nest_in_tuples(mut views: Vec<TokenStream>) -> Vec<TokenStream> {
+    while views.len() > MAX_TUPLE_LEN {
+        views = views
+            .chunks(MAX_TUPLE_LEN)
+            .map(|chunk| quote! { (#(#chunk,)*) })
+            .collect();
+    }
+    views
+}
+
 /// Converts a [`syn::Path`] (which could include things like `Vec<i32>`) to
 /// always use the turbofish (like `Vec::<i32>`).
 pub fn turbofishify(mut path: syn::Path) -> syn::Path {
-- 
2.43.0


From 6e26778b2d10cb9c759687dda7150187d8d74eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 11/21] fix: parse component paths with a leading ::

---
 leptos-mview-core/src/ast/children.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/ast/children.rs b/leptos-mview-core/src/ast/children.rs
index 796b9fb..8d68daa 100644
--- a/leptos-mview-core/src/ast/children.rs
+++ b/leptos-mview-core/src/ast/children.rs
@@ -76,7 +76,8 @@ impl Parse for Child {
             <Token![:]>::parse(input).unwrap();
             let elem = Element::parse(input)?;
             Ok(Self::Slot(slot, elem))
-        } else if input.peek(syn::Ident::peek_any) {
+        // a component path can have a leading `::`
+        } else if input.peek(syn::Ident::peek_any) || input.peek(Token![::]) {
             let elem = Element::parse(input)?;
             Ok(Self::Node(NodeChild::Element(elem)))
         } else {
-- 
2.43.0


From 331c64d011cc6aabbf66d2e342cb3c2d4c7bc9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:24 +0000
Subject: [PATCH 12/21] fix: report modifiers on component directives instead
 of ignoring them

---
 leptos-mview-core/src/expand/subroutines.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 05cf739..555be81 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -387,6 +387,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
     let dir = &directive.dir;
     let path = match &*dir.to_string() {
         "class" | "style" => {
+            emit_error_if_modifier(directive.modifier.as_ref());
             // avoid making it string coloured
             let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
@@ -397,6 +398,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "attr" => {
+            emit_error_if_modifier(directive.modifier.as_ref());
             let attr_kind = AttributeKind::from(&*directive.key.to_lit_str().value());
             match attr_kind {
                 AttributeKind::Class | AttributeKind::Style => {
@@ -426,6 +428,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "prop" => {
+            emit_error_if_modifier(directive.modifier.as_ref());
             let key = directive.key.to_lit_str();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
             quote! {
-- 
2.43.0


From 0b60cb1d4cd6b3b919d62333bf8a98098710a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:35 +0000
Subject: [PATCH 13/21] fix: support ChildrenFragment for component children

The children given to a component were wrapped in a View, which does not
implement IntoFragment, so components that take ChildrenFragment (or its Fn
and FnMut variants) could not be used at all.
---
 leptos-mview-core/src/expand.rs             | 15 +++++++++++++--
 leptos-mview-core/src/expand/subroutines.rs | 15 ++++++++-------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 453f7f0..ad80e12 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -44,12 +44,23 @@ use utils::*;
 pub fn children_fragment_tokens<'a>(
     children: impl Iterator<Item = &'a NodeChild>,
     span: Span,
+) -> TokenStream {
+    let children = children_tuple_tokens(children, span);
+    quote_spanned! { span=>
+        ::leptos::prelude::View::new(#children)
+    }
+}
+
+/// Converts the children into a tuple, without wrapping it in a `View`.
+pub fn children_tuple_tokens<'a>(
+    children: impl Iterator<Item = &'a NodeChild>,
+    span: Span,
 ) -> TokenStream {
     let children = nest_in_tuples(children.map(ToTokens::to_token_stream).collect());
     quote_spanned! { span=>
-        ::leptos::prelude::View::new((
+        (
             #( #children, )*
-        ))
+        )
     }
 }
 
diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 555be81..f711bab 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -13,7 +13,9 @@ use crate::{
         },
         KebabIdentOrStr, NodeChild, TagKind, Value,
     },
-    expand::{children_fragment_tokens, emit_error_if_modifier, nest_in_tuples},
+    expand::{
+        children_fragment_tokens, children_tuple_tokens, emit_error_if_modifier, nest_in_tuples,
+    },
     span,
 };
 
@@ -325,21 +327,20 @@ pub(super) fn component_children_tokens<'a>(
         // not sure why `child.span()` is calling `syn::spanned::Spanned` instead
         .map_or_else(Span::call_site, |child| (*child).span());
 
-    // span call site if there are no args so that the children don't get all the
-    // `std` `vec!` etc docs.
-    let children_fragment =
-        children_fragment_tokens(children, args.map_or(Span::call_site(), Spanned::span));
-
     // children with arguments take a `Fn(T) -> impl IntoView`
     // normal children (`Children`, `ChildrenFn`, ...) take
     // `ToChildren::to_children`
     let wrapped_fragment = if let Some(args) = args {
+        let children_fragment = children_fragment_tokens(children, args.span());
         // `args` includes the pipes
         quote_spanned!(args.span()=> move #args #children_fragment)
     } else {
+        // not wrapped in a `View`, so that `ChildrenFragment` is also supported.
+        // span call site so that the children don't get all the `std` `vec!` etc docs.
+        let children_tuple = children_tuple_tokens(children, Span::call_site());
         // this span is required for slots that take `Callback<T, View>` but have been
         // given a regular `ChildrenFn` instead.
-        let closure = quote_spanned!(child_span=> move || #children_fragment);
+        let closure = quote_spanned!(child_span=> move || #children_tuple);
         quote! {
             ::leptos::children::ToChildren::to_children(#closure)
         }
-- 
2.43.0


From a9d29c942cde304a2fe9eb77af71f9aba53bfa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 14/21] fix: span errors at the end of the template to the last
 token

---
 leptos-mview-core/src/lib.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/leptos-mview-core/src/lib.rs b/leptos-mview-core/src/lib.rs
index 11abed9..3f1c8ca 100644
--- a/leptos-mview-core/src/lib.rs
+++ b/leptos-mview-core/src/lib.rs
@@ -13,10 +13,10 @@ mod parse;
 mod span;
 
 use ast::Child;
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
 use proc_macro_error2::abort;
 use quote::quote;
-use syn::spanned::Spanned;
+use syn::{parse::Parser, spanned::Spanned};
 
 use crate::{ast::Children, expand::children_fragment_tokens};
 
@@ -26,7 +26,7 @@ pub fn mview_impl(input: TokenStream) -> TokenStream {
     // invocation" e.g. when assigning `let res = mview! { ... };`
     proc_macro_error2::set_dummy(quote! { () });
 
-    let children = match syn::parse2::<Children>(input) {
+    let children = match parse_root(input) {
         Ok(tree) => tree,
         Err(e) => return e.to_compile_error(),
     };
@@ -63,3 +63,20 @@ pub fn mview_impl(input: TokenStream) -> TokenStream {
         }
     }
 }
+
+/// Parses the children at the root of the macro.
+///
+/// If the input ends unexpectedly, the error is spanned to the last token
+/// instead of the whole macro call.
+fn parse_root(input: TokenStream) -> syn::Result<Children> {
+    let Some(last) = input.clone().into_iter().last() else {
+        return syn::parse2::<Children>(input);
+    };
+
+    // `syn` spans errors at the end of a group to the closing delimiter
+    let mut root = Group::new(Delimiter::Brace, input);
+    root.set_span(last.span());
+    let (_, children) =
+        parse::braced::<Children>.parse2(TokenStream::from(TokenTree::Group(root)))?;
+    Ok(children)
+}
-- 
2.43.0


From c03b9b61d434a2da838b9bd4530da49cfff326af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:18 +0000
Subject: [PATCH 15/21] fix: report every error without the nightly feature

---
 leptos-mview-core/src/lib.rs  | 4 ----
 leptos-mview-macro/src/lib.rs | 5 ++++-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/leptos-mview-core/src/lib.rs b/leptos-mview-core/src/lib.rs
index 3f1c8ca..8f5bd2b 100644
--- a/leptos-mview-core/src/lib.rs
+++ b/leptos-mview-core/src/lib.rs
@@ -22,10 +22,6 @@ use crate::{ast::Children, expand::children_fragment_tokens};
 
 #[must_use]
 pub fn mview_impl(input: TokenStream) -> TokenStream {
-    // return () in case of any errors, to avoid "unexpected end of macro
-    // invocation" e.g. when assigning `let res = mview! { ... };`
-    proc_macro_error2::set_dummy(quote! { () });
-
     let children = match parse_root(input) {
         Ok(tree) => tree,
         Err(e) => return e.to_compile_error(),
diff --git a/leptos-mview-macro/src/lib.rs b/leptos-mview-macro/src/lib.rs
index 1101ab5..804c428 100644
--- a/leptos-mview-macro/src/lib.rs
+++ b/leptos-mview-macro/src/lib.rs
@@ -1,7 +1,10 @@
 use proc_macro::TokenStream;
 use proc_macro_error2::proc_macro_error;
 
-#[proc_macro_error]
+// `proc_macro_hack` puts the errors in a block, otherwise only the first error
+// is reported without the nightly feature as the macro is expected to expand to
+// a single expression.
+#[proc_macro_error(proc_macro_hack)]
 #[proc_macro]
 #[rustfmt::skip]
 pub fn mview(input: TokenStream) -> TokenStream {
-- 
2.43.0


From 4e4864ac6ba8af7cba5f9831c5ba6b0851c13cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 16/21] fix: report all slots at the root

---
 leptos-mview-core/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/leptos-mview-core/src/lib.rs b/leptos-mview-core/src/lib.rs
index 8f5bd2b..8ac4940 100644
--- a/leptos-mview-core/src/lib.rs
+++ b/leptos-mview-core/src/lib.rs
@@ -14,7 +14,7 @@ mod span;
 
 use ast::Child;
 use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
-use proc_macro_error2::abort;
+use proc_macro_error2::{abort, emit_error};
 use quote::quote;
 use syn::{parse::Parser, spanned::Spanned};
 
@@ -43,12 +43,12 @@ pub fn mview_impl(input: TokenStream) -> TokenStream {
         }
     } else {
         // look for any slots
-        if let Some(slot) = children.slot_children().next() {
-            abort!(
+        for slot in children.slot_children() {
+            emit_error!(
                 slot.tag().span(),
                 "slots should be inside a parent that supports slots"
             );
-        };
+        }
 
         let fragment = children_fragment_tokens(children.element_children(), Span::call_site());
         quote! {
-- 
2.43.0


From 551a2acfb717441bfc46d45cee5bf8d8de8dd612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 17/21] fix: span type errors to the attribute or slot instead
 of the macro call

---
 .../src/ast/attribute/directive.rs            | 20 +++++++++++++++++++
 leptos-mview-core/src/ast/attribute/kv.rs     |  2 +-
 leptos-mview-core/src/ast/value.rs            |  8 +++++---
 leptos-mview-core/src/expand.rs               | 17 +++++++++-------
 leptos-mview-core/src/expand/subroutines.rs   | 18 +++++++++--------
 leptos-mview-core/src/span.rs                 |  4 ++++
 6 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/leptos-mview-core/src/ast/attribute/directive.rs b/leptos-mview-core/src/ast/attribute/directive.rs
index 435ee1d..7f56fd4 100644
--- a/leptos-mview-core/src/ast/attribute/directive.rs
+++ b/leptos-mview-core/src/ast/attribute/directive.rs
@@ -1,3 +1,4 @@
+use proc_macro2::Span;
 use syn::{
     ext::IdentExt,
     parse::{Parse, ParseStream},
@@ -7,6 +8,7 @@ use syn::{
 use crate::{
     ast::{BracedKebabIdent, KebabIdentOrStr, Value},
     parse::rollback_err,
+    span,
 };
 
 /// A special attribute like `on:click={...}`.
@@ -36,6 +38,24 @@ pub struct Directive {
     pub(crate) value: Option<Value>,
 }
 
+impl Directive {
+    /// Returns the value of the directive, or `true` if there isn't one.
+    pub fn value_or_true(&self) -> Value {
+        self.value
+            .clone()
+            .unwrap_or_else(|| Value::new_true(self.dir.span()))
+    }
+
+    /// Returns the span of the directive, from the name to the value.
+    pub fn span(&self) -> Span {
+        let end = self
+            .value
+            .as_ref()
+            .map_or_else(|| self.dir.span(), Value::span);
+        span::join(self.dir.span(), end)
+    }
+}
+
 impl Parse for Directive {
     fn parse(input: ParseStream) -> syn::Result<Self> {
         let name = syn::Ident::parse_any(input)?;
diff --git a/leptos-mview-core/src/ast/attribute/kv.rs b/leptos-mview-core/src/ast/attribute/kv.rs
index d3bb109..2e8336a 100644
--- a/leptos-mview-core/src/ast/attribute/kv.rs
+++ b/leptos-mview-core/src/ast/attribute/kv.rs
@@ -52,7 +52,7 @@ impl Parse for KvAttr {
                 let value = Value::parse_or_emit_err(input, eq.span);
                 (ident, value)
             } else {
-                let value = Value::new_true();
+                let value = Value::new_true(ident.span());
                 (ident, value)
             }
         };
diff --git a/leptos-mview-core/src/ast/value.rs b/leptos-mview-core/src/ast/value.rs
index 422b25e..de33fcd 100644
--- a/leptos-mview-core/src/ast/value.rs
+++ b/leptos-mview-core/src/ast/value.rs
@@ -4,7 +4,6 @@ use quote::{quote, quote_spanned, ToTokens};
 use syn::{
     ext::IdentExt,
     parse::{Parse, ParseStream},
-    parse_quote,
     spanned::Spanned,
 };
 
@@ -150,8 +149,11 @@ impl Value {
         }
     }
 
-    /// Constructs self as a literal `true` with no span.
-    pub fn new_true() -> Self { Self::Lit(parse_quote!(true)) }
+    /// Constructs self as a literal `true` with the provided span, to avoid
+    /// errors at the whole call site.
+    pub fn new_true(span: Span) -> Self {
+        Self::Lit(syn::Lit::Bool(syn::LitBool::new(true, span)))
+    }
 }
 
 #[cfg(test)]
diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index ad80e12..162b3b3 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -12,6 +12,7 @@ use crate::ast::{
     attribute::{directive::Directive, selector::SelectorShorthand},
     raw_ident, Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
 };
+use crate::span;
 
 /// Functions for specific parts of an element's expansion.
 mod subroutines;
@@ -327,6 +328,9 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
             path.span()=> ::leptos::component::component_props_builder(&#path)
         };
 
+        // avoids the call site span too
+        let directives = quote_spanned!(span::located_at(path.span())=> (#(#directive_paths,)*));
+
         Some(quote! {
             // the .build() returns `!` if not all props are present.
             // this causes unreachable code warning in ::leptos::component_view
@@ -340,9 +344,7 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
                         #slot_children
                         #build
                 )
-                .add_any_attr((
-                    #(#directive_paths,)*
-                ))
+                .add_any_attr(#directives)
             )
         })
     }
@@ -417,11 +419,12 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
                     .#method(#(#slot_tokens)*)
                 }
             } else {
-                quote! {
-                    .#method(<[_]>::into_vec(::std::boxed::Box::new([
+                let slots = quote_spanned! { span::located_at(slot_name.span())=>
+                    <[_]>::into_vec(::std::boxed::Box::new([
                         #(#slot_tokens),*
-                    ])))
-                }
+                    ]))
+                };
+                quote! { .#method(#slots) }
             }
         })
         .collect()
diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index f711bab..3014bcb 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -11,7 +11,7 @@ use crate::{
             selector::{SelectorShorthand, SelectorShorthands},
             spread_attrs::SpreadAttr,
         },
-        KebabIdentOrStr, NodeChild, TagKind, Value,
+        KebabIdentOrStr, NodeChild, TagKind,
     },
     expand::{
         children_fragment_tokens, children_tuple_tokens, emit_error_if_modifier, nest_in_tuples,
@@ -195,7 +195,8 @@ pub(super) fn xml_directive_tokens(directive: &Directive) -> TokenStream {
         "class" | "style" => {
             let key = key.to_lit_str();
             emit_error_if_modifier(modifier.as_ref());
-            quote! { .#dir((#key, #value)) }
+            let class_or_style = quote_spanned!(directive.span()=> (#key, #value));
+            quote! { .#dir(#class_or_style) }
         }
         "prop" => {
             let key = key.to_lit_str();
@@ -391,11 +392,12 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             emit_error_if_modifier(directive.modifier.as_ref());
             // avoid making it string coloured
             let key = directive.key.to_unspanned_string();
-            let value = directive.value.clone().unwrap_or_else(Value::new_true);
+            let value = directive.value_or_true();
             // to avoid spanning the directive to the module
             let dir_unspanned = syn::Ident::new(&dir.to_string(), Span::call_site());
+            let class_or_style = quote_spanned!(directive.span()=> (#key, #value));
             quote! {
-                ::leptos::tachys::html::#dir_unspanned::#dir((#key, #value))
+                ::leptos::tachys::html::#dir_unspanned::#dir(#class_or_style)
             }
         }
         "attr" => {
@@ -404,7 +406,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             match attr_kind {
                 AttributeKind::Class | AttributeKind::Style => {
                     let class_or_style = directive.key.to_ident_or_emit();
-                    let value = directive.value.clone().unwrap_or_else(Value::new_true);
+                    let value = directive.value_or_true();
                     // to avoid spanning to the module name
                     let class_or_style_unspanned =
                         syn::Ident::new(&class_or_style.unraw().to_string(), Span::call_site());
@@ -414,14 +416,14 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
                 }
                 AttributeKind::Custom => {
                     let attr_name = directive.key.to_unspanned_string();
-                    let value = directive.value.clone().unwrap_or_else(Value::new_true);
+                    let value = directive.value_or_true();
                     quote! {
                         ::leptos::tachys::html::attribute::custom::custom_attribute(#attr_name, #value)
                     }
                 }
                 AttributeKind::OtherChecked => {
                     let attr_name = directive.key.to_ident_or_emit();
-                    let value = directive.value.clone().unwrap_or_else(Value::new_true);
+                    let value = directive.value_or_true();
                     quote! {
                         ::leptos::tachys::html::attribute::#attr_name(#value)
                     }
@@ -431,7 +433,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
         "prop" => {
             emit_error_if_modifier(directive.modifier.as_ref());
             let key = directive.key.to_lit_str();
-            let value = directive.value.clone().unwrap_or_else(Value::new_true);
+            let value = directive.value_or_true();
             quote! {
                 ::leptos::tachys::html::property::#dir(#key, #value)
             }
diff --git a/leptos-mview-core/src/span.rs b/leptos-mview-core/src/span.rs
index 6def6d6..737ae74 100644
--- a/leptos-mview-core/src/span.rs
+++ b/leptos-mview-core/src/span.rs
@@ -10,6 +10,10 @@ use quote::quote;
 /// are in different files.
 pub fn join(s1: Span, s2: Span) -> Span { s1.join(s2).unwrap_or(s1) }
 
+/// A span with the same location as `span`, but still treated as code from the
+/// macro (so lints won't consider it to be code written by the user).
+pub fn located_at(span: Span) -> Span { Span::call_site().located_at(span) }
+
 /// Gives each span of `spans` the color of a variable.
 ///
 /// Returns an iterator of [`TokenStream`]s that need to be expanded to
-- 
2.43.0


From c8366a6d8d62f9df62c35e57e26f1b88c44c97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:53 +0000
Subject: [PATCH 18/21] fix: pass closure arguments to empty children instead
 of dropping them

---
 leptos-mview-core/src/expand.rs             | 4 ++--
 leptos-mview-core/src/expand/subroutines.rs | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 162b3b3..6bbcf34 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -297,8 +297,8 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
         let mut it = children.element_children().peekable();
         // need to check that there are any element children at all,
         // as components that accept slots may not accept children.
-        it.peek()
-            .is_some()
+        // closure arguments can only be for the children though, even if empty.
+        (it.peek().is_some() || element.children_args().is_some())
             .then(|| component_children_tokens(it, element.children_args(), &clones))
     });
 
diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 3014bcb..5b442b4 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -326,7 +326,9 @@ pub(super) fn component_children_tokens<'a>(
     let child_span = children
         .peek()
         // not sure why `child.span()` is calling `syn::spanned::Spanned` instead
-        .map_or_else(Span::call_site, |child| (*child).span());
+        .map(|child| (*child).span())
+        .or_else(|| args.map(Spanned::span))
+        .unwrap_or_else(Span::call_site);
 
     // children with arguments take a `Fn(T) -> impl IntoView`
     // normal children (`Children`, `ChildrenFn`, ...) take
-- 
2.43.0


From c94350b8db861ac2797d1254f850a71fc46d464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:05 +0000
Subject: [PATCH 19/21] fix: span missing handlers of components to the
 directive

---
 leptos-mview-core/src/expand/subroutines.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 5b442b4..0a5354b 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -443,7 +443,8 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
         "on" => {
             let event_path = event_listener_event_path(directive);
             let value = &directive.value;
-            quote! {
+            // spanned to avoid errors at the whole call site if there's no value
+            quote_spanned! { dir.span()=>
                 ::leptos::tachys::html::event::on(#event_path, #value)
             }
         }
-- 
2.43.0


From ef544227284019fe71e7d81f544b026d9c0b828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:41 +0000
Subject: [PATCH 20/21] fix: more than 26 selectors, directives and spreads on
 a component

---
 leptos-mview-core/src/expand.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 6bbcf34..09de4d5 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -328,6 +328,8 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
             path.span()=> ::leptos::component::component_props_builder(&#path)
         };
 
+        // there may be more than fit into one tuple
+        let directive_paths = nest_in_tuples(directive_paths);
         // avoids the call site span too
         let directives = quote_spanned!(span::located_at(path.span())=> (#(#directive_paths,)*));
 
-- 
2.43.0


From 2d6a346781ddda9d2c1b721ea2a53d820dbf2b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:21 +0000
Subject: [PATCH 21/21] fix: inner_html of SVG elements is their content, not
 an attribute

---
 leptos-mview-core/src/expand/subroutines.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 0a5354b..d5f1a4d 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -167,7 +167,9 @@ pub(super) fn xml_kv_attribute_tokens(attr: &KvAttr, element_tag: TagKind) -> To
         // - It's a custom web component or SVG element
         // - or it's a custom or data attribute (has `-` except for `aria-`)
         let attr_kind = AttributeKind::from(key.repr());
-        let is_web_or_svg = matches!(element_tag, TagKind::Svg | TagKind::WebComponent);
+        let is_web_or_svg = matches!(element_tag, TagKind::Svg | TagKind::WebComponent)
+            // this is the content of the element, not an attribute
+            && !(element_tag == TagKind::Svg && key.repr() == "inner_html");
 
         if (is_web_or_svg || attr_kind.is_custom()) && !attr_kind.is_class_or_style() {
             // unchecked attribute
-- 
2.43.0

