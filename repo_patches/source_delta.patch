From 3d4a4ce87d667d81e63f61e420bd456b56b8ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 01/18] hook: lazy async builder as a closure under
 cfg(fieldx_verif)

---
 fieldx_derive/src/codegen/sync/impl_async.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fieldx_derive/src/codegen/sync/impl_async.rs b/fieldx_derive/src/codegen/sync/impl_async.rs
index 7b75dad..d5ce2fe 100644
--- a/fieldx_derive/src/codegen/sync/impl_async.rs
+++ b/fieldx_derive/src/codegen/sync/impl_async.rs
@@ -51,6 +51,11 @@ impl FXSyncImplDetails for FXAsyncImplementor {
         let span = fctx.helper_span(super::FXHelperKind::Lazy);
         let input_type = codegen.input_type_toks();
         let wrapper_name = self.lazy_wrapper_name(codegen, fctx)?;
+        // Verification hook: Kani can't compile a boxed function item, a closure calling the same function it can.
+        #[allow(unexpected_cfgs)]
+        if cfg!(fieldx_verif) {
+            return Ok(quote_spanned![span=> ::std::boxed::Box::new(|me| <#input_type>::#wrapper_name(me))]);
+        }
         Ok(quote_spanned![span=> ::std::boxed::Box::new(<#input_type>::#wrapper_name)])
     }
 
-- 
2.43.0


From 1f4549fa80b3aafcdbde9eabe3dd77621f222cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 02/18] fix: leave skipped fields alone with struct-level
 locks, inner mutability and copy accessors

A skipped field, the self-reference of reference counted structs included, keeps
its own type, but its value was still wrapped when lock, reader, writer or
inner_mut was given to the struct, and get(copy) demanded Copy of it: none of
these compiled.
---
 fieldx_derive/src/codegen.rs   |  2 +-
 fieldx_derive/src/ctx/field.rs | 22 +++++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index f3eada7..89e5792 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -187,7 +187,7 @@ impl FXRewriter {
     fn prepare_field(&self, fctx: Ref<FXFieldCtx>) -> darling::Result<()> {
         let ctx = self.ctx();
 
-        if fctx.needs_accessor() && fctx.is_copy() {
+        if !fctx.is_skipped() && fctx.needs_accessor() && fctx.is_copy() {
             ctx.add_for_copy_trait_check(&fctx);
         }
 
diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 9371eb3..52fc274 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -76,7 +76,7 @@ impl FXFieldCtx {
         }
     }
 
-    helper_fn_ctx! { is: lazy, inner_mut }
+    helper_fn_ctx! { is: lazy }
 
     helper_fn_ctx! { needs: accessor_mut, setter, writer }
 
@@ -149,10 +149,12 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn needs_lock(&self) -> bool {
-        self.field
-            .needs_lock()
-            .or_else(|| self.codegen_ctx().args().needs_lock())
-            .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
+        !self.is_skipped()
+            && self
+                .field
+                .needs_lock()
+                .or_else(|| self.codegen_ctx().args().needs_lock())
+                .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
     }
 
     #[cfg(feature = "serde")]
@@ -176,6 +178,16 @@ impl FXFieldCtx {
         self.builder().as_ref().map_or(false, |b| b.name().is_some())
     }
 
+    #[inline]
+    pub fn is_inner_mut(&self) -> bool {
+        !self.is_skipped()
+            && self
+                .field
+                .is_inner_mut()
+                .or_else(|| self.codegen_ctx().args().is_inner_mut())
+                .unwrap_or(false)
+    }
+
     #[inline]
     pub fn is_sync(&self) -> bool {
         self.field
-- 
2.43.0


From aca65ec612069d1480a695085c2fe7c359598144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 03/18] fix: await the lock in copy, clone and mutable
 accessors of async locked fields

They were generated as plain functions and used the future of the lock as if it
were its guard, which does not compile.
---
 fieldx_derive/src/codegen/sync.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 5c5ce7e..6514b36 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -260,12 +260,15 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     ]
                 }
                 else if fctx.needs_lock() {
+                    let implementor = self.implementor(fctx);
+                    let async_decl = implementor.async_decl();
+                    let await_call = implementor.await_call();
                     let ty = self.maybe_optional_ty(fctx, ty);
 
                     quote_spanned![span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty {
-                            let rlock = self.#ident.read() #shortcut;
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty {
+                            let rlock = self.#ident.read() #await_call #shortcut;
                             (*rlock)#cmethod
                         }
                     ]
@@ -343,13 +346,16 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 };
                 if fctx.needs_lock() {
                     let lock_span = fctx.lock_span();
-                    let wrguard = self.implementor(fctx).rwlock_write_guard();
+                    let implementor = self.implementor(fctx);
+                    let async_decl = implementor.async_decl();
+                    let await_call = implementor.await_call();
+                    let wrguard = implementor.rwlock_write_guard();
                     let ty_toks = quote_spanned! [lock_span=> #wrguard<#ty_toks>];
 
                     quote_spanned! [span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty_toks {
-                            self.#ident.write()
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty_toks {
+                            self.#ident.write()#await_call
                         }
                     ]
                 }
-- 
2.43.0


From f06d3e32b3338a27a40c1269fa51471294ef876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 04/18] fix: get_mut of sync fields follows its own visibility
 and attributes

They were taken from the get argument, unlike in plain structs.
---
 fieldx_derive/src/codegen/sync.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 6514b36..bbbbe58 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -314,11 +314,11 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_accessor_mut(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         Ok(if fctx.needs_accessor_mut() {
             let ident = fctx.ident_tok();
-            let vis_tok = fctx.vis_tok(FXHelperKind::Accessor);
+            let vis_tok = fctx.vis_tok(FXHelperKind::AccessorMut);
             let accessor_name = self.accessor_mut_name(fctx)?;
             let ty = fctx.ty();
-            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::Accessor, FXInlining::Always);
-            let span = self.helper_span(fctx, FXHelperKind::Accessor);
+            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::AccessorMut, FXInlining::Always);
+            let span = self.helper_span(fctx, FXHelperKind::AccessorMut);
             let read_method = self.read_method_name(fctx, true, &span);
 
             if fctx.is_lazy() {
-- 
2.43.0


From 28d77090b15b62b6bfe0e3614868fd5e62f11834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:12 +0000
Subject: [PATCH 05/18] fix: a field-level mode(async) makes the field a sync
 one

---
 fieldx_derive/src/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 8cc5a8c..dc0b0e9 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -218,7 +218,7 @@ impl FXFieldReceiver {
         self.mode_sync
             .as_ref()
             .map(|th| th.is_true())
-            .or_else(|| self.mode.as_ref().map(|m| m.is_sync()))
+            .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
             .or_else(|| self.is_plain().map(|b| !b))
-- 
2.43.0


From 146a4ed33e50e1c9900045c813460f618f0b5350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:12 +0000
Subject: [PATCH 06/18] fix: clearer of an optional sync field without a lock

---
 fieldx_derive/src/codegen/sync.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index bbbbe58..a2d7be8 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -591,8 +591,8 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     }
                 ]
             }
-            else {
-                // If not lazy then it's optional
+            // If not lazy then it's optional
+            else if fctx.needs_lock() {
                 quote_spanned![span=>
                     #[inline]
                     #attributes_fn
@@ -601,6 +601,15 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     }
                 ]
             }
+            else {
+                quote_spanned![span=>
+                    #[inline]
+                    #attributes_fn
+                    #vis_tok fn #clear_name(&mut self) -> ::std::option::Option<#ty> {
+                       self.#ident.take()
+                    }
+                ]
+            }
         }
         else {
             TokenStream::new()
-- 
2.43.0


From 1fa0290fd36db300be11ea026b86dd517aa14bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 07/18] fix: an explicitly sync field of an async struct

---
 fieldx_derive/src/fields.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index dc0b0e9..957dc00 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -208,6 +208,8 @@ impl FXFieldReceiver {
             .as_ref()
             .map(|th| th.is_true())
             .or_else(|| self.mode.as_ref().map(|m| m.is_async()))
+            // An explicitly sync field is not an async one, whatever the struct is
+            .or_else(|| self.mode_sync.as_ref().and_then(|th| th.is_true().then_some(false)))
     }
 
     pub fn is_plain(&self) -> Option<bool> {
-- 
2.43.0


From 8bce5710f3eae8307406412a4b477a9d24701174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:58 +0000
Subject: [PATCH 08/18] fix: struct-level fallible only concerns lazy fields

---
 fieldx_derive/src/ctx/field.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 52fc274..3204124 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -205,10 +205,13 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn is_fallible(&self) -> bool {
-        self.field
-            .is_fallible()
-            .or_else(|| self.codegen_ctx().args().is_fallible())
-            .unwrap_or(false)
+        // It is the lazy builder what may fail, no other field is affected.
+        self.is_lazy()
+            && self
+                .field
+                .is_fallible()
+                .or_else(|| self.codegen_ctx().args().is_fallible())
+                .unwrap_or(false)
     }
 
     #[inline]
-- 
2.43.0


From 0d5fb3102a2cc37f1a56adb5abcad506ee72f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:47 +0000
Subject: [PATCH 09/18] fix: fallible post_build of reference-counted structs

---
 fieldx_derive/src/codegen/codegen_trait.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 9194a18..09b4d20 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -237,6 +237,7 @@ pub trait FXCodeGenContextual {
     ) -> TokenStream {
         let ctx = self.ctx();
         let args = ctx.args();
+        let fallible_post_build = init.is_some() && ctx.build_has_error_type();
         let post_constuct = if let Some(init) = init {
             let shortcut = if ctx.build_has_error_type() {
                 quote![?]
@@ -253,6 +254,26 @@ pub trait FXCodeGenContextual {
         if args.is_ref_counted() {
             let (rc_type, _) = self.ref_count_types();
             let myself_field = ctx.myself_field();
+
+            if fallible_post_build {
+                // The closure of new_cyclic has no way to report an error. Thus post-build first, reference later.
+                return quote![
+                    {
+                        let mut fieldx_new_object = #self_name {
+                            #myself_field: ::std::default::Default::default(),
+                            #struct_init
+                        }
+                        #post_constuct;
+                        #rc_type::new_cyclic(
+                            |me| {
+                                fieldx_new_object.#myself_field = me.clone();
+                                fieldx_new_object
+                            }
+                        )
+                    }
+                ];
+            }
+
             quote![
                 #rc_type::new_cyclic(
                     |me| {
-- 
2.43.0


From 061cae5466696f35f94e33f2edf5f31412683aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:32 +0000
Subject: [PATCH 10/18] fix: bounded and defaulted generic parameters of
 builders and serde shadows

The declared generics, bounds and defaults included, were used where only
impl generics or type arguments are allowed.
---
 fieldx_derive/src/codegen.rs               |  9 ++++----
 fieldx_derive/src/codegen/codegen_trait.rs |  4 ++--
 fieldx_derive/src/codegen/serde.rs         | 24 +++++++++++-----------
 3 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 89e5792..60669cc 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -331,8 +331,7 @@ impl FXRewriter {
         let builders = ctx.builders_combined();
         let input_ident = ctx.input_ident();
         let generics = ctx.input().generics();
-        let where_clause = &generics.where_clause;
-        let generic_params = ctx.struct_generic_params();
+        let (impl_generics, generic_params, where_clause) = generics.split_for_impl();
         let attributes = ctx.args().builder_impl_attributes();
         let post_build_ident = ctx.builder_post_build_ident();
 
@@ -408,7 +407,7 @@ impl FXRewriter {
 
         quote![
             #attributes
-            impl #generics #builder_ident #generic_params
+            impl #impl_generics #builder_ident #generic_params
             #where_clause
             {
                 #fn_new
@@ -430,7 +429,7 @@ impl FXRewriter {
             let builder_fields = ctx.builder_fields_combined();
             let builder_impl = self.builder_impl();
             let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (_, type_generics, where_clause) = generics.split_for_impl();
             let span = ctx.helper_span(FXHelperKind::Builder);
             let vis = self.builder_struct_visibility();
             let attributes = args.builder_attributes();
@@ -440,7 +439,7 @@ impl FXRewriter {
                 let (_, weak_type) = cgen.ref_count_types();
                 let mf = ctx.myself_field();
                 let input_ident = ctx.input_ident();
-                quote![#mf: #weak_type<#input_ident #generics>,]
+                quote![#mf: #weak_type<#input_ident #type_generics>,]
             }
             else {
                 quote![]
diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 09b4d20..269d72a 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -503,13 +503,13 @@ pub trait FXCodeGenContextual {
         let span = tokens.span();
         let mut fixed_tokens = TokenStream::new();
         let struct_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
+        let (_, type_generics, _) = ctx.input().generics().split_for_impl();
 
         for t in tokens.into_iter() {
             match t {
                 TokenTree::Ident(ref ident) => {
                     if ident.to_string() == "Self" {
-                        fixed_tokens.extend(quote_spanned![span=> <#struct_ident #generics>]);
+                        fixed_tokens.extend(quote_spanned![span=> <#struct_ident #type_generics>]);
                     }
                     else {
                         fixed_tokens.extend(t.to_token_stream());
diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index a95f6b5..6779a0c 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -258,8 +258,8 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut serde_args: Vec<TokenStream> = vec![];
 
             let serde_helper = args.serde().as_ref().unwrap();
-            let generics = ctx.input().generics();
-            let shadow_ident = format!("{}{}", ctx.shadow_ident(), generics.to_token_stream());
+            let (_, type_generics, _) = ctx.input().generics().split_for_impl();
+            let shadow_ident = format!("{}{}", ctx.shadow_ident(), type_generics.to_token_stream());
             let serde_span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             if serde_helper.needs_deserialize().unwrap_or(true) {
@@ -296,7 +296,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut attrs = vec![];
             let derive_attr = crate::util::derive_toks(&self.serde_derive_traits());
             let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, type_generics, where_clause) = generics.split_for_impl();
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
             let user_attributes = serde_helper.attributes();
 
@@ -309,7 +309,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let default_impl = if ctx.needs_default() {
                 let shadow_defaults = ctx.shadow_defaults();
                 quote_spanned! {span=>
-                    impl #generics ::std::default::Default for #shadow_ident #generics #where_clause {
+                    impl #impl_generics ::std::default::Default for #shadow_ident #type_generics #where_clause {
                         fn default() -> Self {
                             Self {
                                 #( #shadow_defaults ),*
@@ -345,7 +345,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let shadow_var = ctx.shadow_var_ident();
             let mut fields = vec![];
             let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, type_generics, where_clause) = generics.split_for_impl();
             let span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             for field in ctx.all_fields() {
@@ -376,8 +376,8 @@ impl FXRewriteSerde for super::FXRewriter {
             };
 
             ctx.tokens_extend(quote_spanned![span=>
-                impl #generics ::std::convert::From<#shadow_ident #generics> for #struct_ident #generics #where_clause {
-                    fn from(#shadow_var: #shadow_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#shadow_ident #type_generics> for #struct_ident #type_generics #where_clause {
+                    fn from(#shadow_var: #shadow_ident #type_generics) -> Self {
                         Self {
                             #( #fields, )*
                             #init_from_default
@@ -398,7 +398,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut lazy_inits = vec![];
             let me_var = ctx.me_var_ident();
             let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, type_generics, where_clause) = generics.split_for_impl();
 
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
@@ -428,8 +428,8 @@ impl FXRewriteSerde for super::FXRewriter {
             }
 
             ctx.tokens_extend(quote![
-                impl #generics ::std::convert::From<#struct_ident #generics> for #shadow_ident #generics #where_clause {
-                    fn from(mut #me_var: #struct_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#struct_ident #type_generics> for #shadow_ident #type_generics #where_clause {
+                    fn from(mut #me_var: #struct_ident #type_generics) -> Self {
                         #( #lazy_inits )*
                         Self {
                             #( #fields, )*
@@ -511,12 +511,12 @@ impl FXRewriteSerde for super::FXRewriter {
                     quote_spanned![default_span=> #default_code]
                 };
 
-                let generics = ctx.input().generics();
+                let (_, type_generics, _) = ctx.input().generics().split_for_impl();
                 let shadow_ident = ctx.shadow_ident();
                 let fn_ident = ctx.unique_ident_pfx(&format!("{}_default", shadow_ident.to_string()));
                 ctx.add_method_decl(quote_spanned![default_span=>
                     #[allow(non_snake_case)]
-                    fn #fn_ident() -> #shadow_ident #generics {
+                    fn #fn_ident() -> #shadow_ident #type_generics {
                         #serde_default.into()
                     }
                 ]);
-- 
2.43.0


From a46bd1a1fb11870c62a47a6372b3fe5644d51b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:27 +0000
Subject: [PATCH 11/18] fix: inner_mut(off) of a field does not make it a sync
 one

---
 fieldx_derive/src/fields.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 957dc00..b5ea65a 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -223,7 +223,8 @@ impl FXFieldReceiver {
             .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
-            .or_else(|| self.is_plain().map(|b| !b))
+            // Inner mutability means a plain field, its absence says nothing about the mode
+            .or_else(|| self.is_plain().and_then(|plain| plain.then_some(false)))
             .or_else(|| {
                 // Setting reader or writer to off doesn't mean the field becomes plain. It's better be decided at the
                 // struct level then.
-- 
2.43.0


From fc5c408cc6cba4766b36cb87fc3d10f48a8d5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:38 +0000
Subject: [PATCH 12/18] fix: clearer of a lazy field in a struct with inner
 mutability

---
 fieldx_derive/src/codegen/plain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index bc78fc2..88067e2 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -307,7 +307,8 @@ impl FXCodeGenContextual for FXCodeGenPlain {
             let attributes_fn = self.attributes_fn(fctx, FXHelperKind::Clearer, FXInlining::Always);
             let span = self.helper_span(fctx, FXHelperKind::Clearer);
             let ty_tok = fctx.ty_tok().clone();
-            let (mut_tok, ty_tok) = if fctx.is_inner_mut() {
+            // A lazy is never wrapped for inner mutability
+            let (mut_tok, ty_tok) = if fctx.is_inner_mut() && !fctx.is_lazy() {
                 (quote![], self.maybe_optional(fctx, ty_tok))
             }
             else {
-- 
2.43.0


From 375b14e57fc29ed62fdc70174959980f6fd1a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 13/18] fix: the name given with a field's serde argument is
 its serialization name

---
 fieldx_derive/src/codegen/serde.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 6779a0c..3b9c0e0 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -99,7 +99,12 @@ pub trait FXCGenSerde: FXCodeGenContextual {
                 serde_attr_args.push(default_arg);
             }
 
-            if let Some(base_name) = fctx.base_name() {
+            // The name given with the field's `serde` argument wins over the field's `rename`
+            if let Some(serde_name) = fctx.serde().as_ref().and_then(|sh| sh.shadow_name()) {
+                let span = fctx.serde().as_ref().unwrap().orig_span().unwrap_or_else(|| Span::call_site());
+                serde_attr_args.push(quote_spanned![span=> rename = #serde_name]);
+            }
+            else if let Some(base_name) = fctx.base_name() {
                 let span = base_name.span();
                 let base_name = base_name.to_string();
                 serde_attr_args.push(quote_spanned![span=> rename = #base_name]);
-- 
2.43.0


From 22d34e499446d70e47060ea84a3e322aa284d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:55 +0000
Subject: [PATCH 14/18] fix: an absent value of a plain optional or lazy field
 deserializes as unset, not as the fieldx default

---
 fieldx_derive/src/codegen/plain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index 88067e2..c594154 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -447,7 +447,8 @@ impl FXCodeGenContextual for FXCodeGenPlain {
         let shadow_var = self.ctx().shadow_var_ident();
 
         Ok(if self.is_serde_optional(fctx) {
-            let default_value = self.field_default_wrap(fctx)?;
+            // Nothing in the shadow is nothing in the struct; it is up to the shadow's defaults otherwise.
+            let default_value = self.field_value_wrap(fctx, FXValueRepr::None)?;
             let shadow_value = self.field_value_wrap(fctx, FXValueRepr::Versatile(quote![v]))?;
             quote![ #shadow_var.#field_ident.map_or_else(|| #default_value, |v| #shadow_value) ]
         }
-- 
2.43.0


From 52ae66335f3218cac0c0ed49515c42636ae4d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:47 +0000
Subject: [PATCH 15/18] fix: serde(serialize(off)) of a field in a struct which
 is serialized

---
 fieldx_derive/src/codegen/serde.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 3b9c0e0..df5c506 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -423,6 +423,24 @@ impl FXRewriteSerde for super::FXRewriter {
 
                             fields.push(quote_spanned![*fctx.span()=> #field_ident: #fetch_struct_field ]);
 
+                            Ok(())
+                        });
+                    }
+                    else if fctx.is_serde() {
+                        // The shadow has the field for deserialization's sake only. It is to be skipped, what it
+                        // holds doesn't matter.
+                        ctx.exec_or_record(|| {
+                            let cgen = self.field_codegen(&fctx)?;
+                            let field_ident = fctx.ident_tok();
+                            let value = if cgen.is_serde_optional(&fctx) {
+                                quote![::std::option::Option::None]
+                            }
+                            else {
+                                cgen.field_from_struct(&fctx)?
+                            };
+
+                            fields.push(quote_spanned![*fctx.span()=> #field_ident: #value ]);
+
                             Ok(())
                         });
                     }
-- 
2.43.0


From 66ccd73b2357b6b63042494ccbe71476857e14db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:26 +0000
Subject: [PATCH 16/18] fix: serde of an optional field with no lock, declared
 sync or async

---
 fieldx_derive/src/codegen/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index a2d7be8..797f82d 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -451,7 +451,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_from_struct(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         let field_ident = fctx.ident_tok();
         let me_var = self.ctx().me_var_ident();
-        Ok(if self.is_serde_optional(fctx) || fctx.needs_lock() {
+        Ok(if fctx.is_lazy() || fctx.needs_lock() {
             quote![ #me_var.#field_ident.into_inner() ]
         }
         else {
-- 
2.43.0


From bae0835c6c4a2293a5bf4482e269ef0c07fdfdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:31 +0000
Subject: [PATCH 17/18] Remove the verification hook, it is no longer needed

---
 fieldx_derive/src/codegen/sync/impl_async.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync/impl_async.rs b/fieldx_derive/src/codegen/sync/impl_async.rs
index d5ce2fe..7b75dad 100644
--- a/fieldx_derive/src/codegen/sync/impl_async.rs
+++ b/fieldx_derive/src/codegen/sync/impl_async.rs
@@ -51,11 +51,6 @@ impl FXSyncImplDetails for FXAsyncImplementor {
         let span = fctx.helper_span(super::FXHelperKind::Lazy);
         let input_type = codegen.input_type_toks();
         let wrapper_name = self.lazy_wrapper_name(codegen, fctx)?;
-        // Verification hook: Kani can't compile a boxed function item, a closure calling the same function it can.
-        #[allow(unexpected_cfgs)]
-        if cfg!(fieldx_verif) {
-            return Ok(quote_spanned![span=> ::std::boxed::Box::new(|me| <#input_type>::#wrapper_name(me))]);
-        }
         Ok(quote_spanned![span=> ::std::boxed::Box::new(<#input_type>::#wrapper_name)])
     }
 
-- 
2.43.0


From 73460abc49bda40c0aa52b9e915e3ef2c22fc48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:40 +0000
Subject: [PATCH 18/18] fix: Clone of structs with lazy async fields

FXProxyAsync is Clone when its builder wrapper is, but none was: the wrappers
held a boxed closure.  They hold a function pointer now, as the sync ones do.
---
 fieldx/src/async/fxproxy.rs                  | 4 +++-
 fieldx_derive/src/codegen/sync/impl_async.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fieldx/src/async/fxproxy.rs b/fieldx/src/async/fxproxy.rs
index 1206c29..653f1c5 100644
--- a/fieldx/src/async/fxproxy.rs
+++ b/fieldx/src/async/fxproxy.rs
@@ -11,7 +11,7 @@ use std::{
 };
 use tokio::sync::{RwLock, RwLockMappedWriteGuard, RwLockReadGuard, RwLockWriteGuard};
 
-type FXCallback<S, T> = Box<dyn Fn(&S) -> Pin<Box<dyn Future<Output = T> + Send + '_>> + Send + Sync>;
+type FXCallback<S, T> = fn(&S) -> Pin<Box<dyn Future<Output = T> + Send + '_>>;
 
 #[doc(hidden)]
 #[async_trait]
@@ -20,6 +20,7 @@ pub trait FXBuilderWrapperAsync: FXBuilderWrapper {
 }
 
 #[doc(hidden)]
+#[derive(Clone)]
 pub struct FXBuilderInfallible<S, T> {
     builder: FXCallback<S, T>,
 }
@@ -48,6 +49,7 @@ where
 }
 
 #[doc(hidden)]
+#[derive(Clone)]
 pub struct FXBuilderFallible<S, T, E> {
     builder: FXCallback<S, Result<T, E>>,
 }
diff --git a/fieldx_derive/src/codegen/sync/impl_async.rs b/fieldx_derive/src/codegen/sync/impl_async.rs
index 7b75dad..007cde6 100644
--- a/fieldx_derive/src/codegen/sync/impl_async.rs
+++ b/fieldx_derive/src/codegen/sync/impl_async.rs
@@ -51,7 +51,7 @@ impl FXSyncImplDetails for FXAsyncImplementor {
         let span = fctx.helper_span(super::FXHelperKind::Lazy);
         let input_type = codegen.input_type_toks();
         let wrapper_name = self.lazy_wrapper_name(codegen, fctx)?;
-        Ok(quote_spanned![span=> ::std::boxed::Box::new(<#input_type>::#wrapper_name)])
+        Ok(quote_spanned![span=> <#input_type>::#wrapper_name])
     }
 
     fn async_decl(&self) -> TokenStream {
-- 
2.43.0

