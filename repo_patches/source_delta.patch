From 4c4d28614fc3dceab21cf6086e22ef043a7748c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 01/12] fix: finishing a seq early is an error, not an
 assertion failure

---
 binschema/src/coder/coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 393f176..cc4b703 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -577,7 +577,7 @@ impl<'a> CoderState<'a> {
                 } => (len, next),
                 "seq finish"
             );
-        debug_assert!(len <= next);
+        debug_assert!(next <= len);
         ensure!(
             len == next,
             ApiUsage,
-- 
2.43.0


From f79822acac4da7cb101003fb7d26887ea22f66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 02/12] fix: malformed bool, char and option someness break the
 decoder

---
 binschema/src/decoder.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 3971bfe..796f54d 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -168,6 +168,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 "{} is not a valid char",
                 n
             ))
+            .do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_bool(&mut self) -> Result<bool> {
@@ -183,6 +184,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 n,
             )),
         }
+            .do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_unit(&mut self) -> Result<()> {
@@ -274,12 +276,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             match n {
                 0 => false,
                 1 => true,
-                _ => bail!(
-                    MalformedData,
-                    Some(self.coder_state()),
-                    "{} is not a valid option someness",
-                    n,
-                ),
+                _ => {
+                    self.state.mark_broken();
+                    bail!(
+                        MalformedData,
+                        Some(self.coder_state()),
+                        "{} is not a valid option someness",
+                        n,
+                    )
+                }
             };
         if is_some {
             self.state.set_option_some()?;
-- 
2.43.0


From 3e5f30c4430ec7bc329c5174190a37dacd6eebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 03/12] fix: report malformed variable-length integers and
 ordinals as malformed data

---
 binschema/src/var_len.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/binschema/src/var_len.rs b/binschema/src/var_len.rs
index 343207b..b136d87 100644
--- a/binschema/src/var_len.rs
+++ b/binschema/src/var_len.rs
@@ -1,22 +1,21 @@
 //! Handling of variable-length integer logic.
 
 
+use crate::error::{
+    self,
+    error,
+};
 use std::io::{
     Read,
     Write,
     Result,
-    Error,
-    ErrorKind,
 };
 
 
 macro_rules! ensure {
     ($c:expr, $($e:tt)*)=>{
         if !$c {
-            return Err(Error::new(
-                ErrorKind::Other,
-                format!($($e)*),
-            ));
+            return Err(error!(MalformedData, None, $($e)*));
         }
     };
 }
@@ -58,7 +57,7 @@ where
 pub fn read_ord<R>(
     read: &mut R,
     num_variants: usize,
-) -> Result<usize>
+) -> error::Result<usize>
 where
     R: Read,
 {
@@ -105,7 +104,7 @@ where
 /// Read a variable length unsigned int.
 pub fn read_var_len_uint<R>(
     read: &mut R,
-) -> Result<u128>
+) -> error::Result<u128>
 where
     R: Read,
 {
@@ -167,7 +166,7 @@ where
 /// Read a variable length signed int.
 pub fn read_var_len_sint<R>(
     read: &mut R,
-) -> Result<i128>
+) -> error::Result<i128>
 where
     R: Read,
 {
@@ -183,7 +182,6 @@ where
     let mut shift = 6;
 
     while more {
-        // TODO: should use crate-specific error types
         ensure!(
             shift < 128,
             "malformed data: too many bytes in var len sint",
-- 
2.43.0


From 0c2d6f381837c79dd25e956b2edba7a38b691b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 04/12] fix: do not allocate for lengths not yet backed by data

---
 binschema/src/decoder.rs | 29 +++++++++++++++++++----------
 binschema/src/value.rs   |  4 ++--
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 796f54d..3600874 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -22,7 +22,6 @@ use std::{
     },
     io::Read,
     borrow::BorrowMut,
-    iter::repeat,
 };
 
 
@@ -128,6 +127,22 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             .do_if_err(|| self.state.mark_broken())
     }
 
+    /// Read `len` bytes onto the end of `buf`, allocating only in proportion to
+    /// the bytes which actually arrive, in case `len` is false.
+    fn read_onto(&mut self, buf: &mut Vec<u8>, len: usize) -> Result<()> {
+        const CHUNK: usize = 1 << 16;
+
+        let mut remaining = len;
+        while remaining > 0 {
+            let n = remaining.min(CHUNK);
+            let start = buf.len();
+            buf.resize(start + n, 0);
+            self.read.read_exact(&mut buf[start..])?;
+            remaining -= n;
+        }
+        Ok(())
+    }
+
     decode_le_bytes!(
         decode_u8(u8) code_u8,
         decode_u16(u16) code_u16,
@@ -206,17 +221,13 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         // characters are actually added to it.
         let mut bbuf = take(buf).into_bytes();
 
-        // TODO: protection against malicious payloads
-
         // try to read all the bytes in
         // on error, make sure to return the buffer
-        bbuf.reserve(len);
-        bbuf.extend(repeat(0).take(len));
-        if let Err(e) = self.read.read_exact(&mut bbuf) {
+        if let Err(e) = self.read_onto(&mut bbuf, len) {
             self.state.mark_broken();
             bbuf.clear();
             *buf = String::from_utf8(bbuf).unwrap();
-            return Err(e.into());
+            return Err(e);
         }
 
         // try to convert to utf8
@@ -252,9 +263,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
 
         self.state.code_bytes()?;
         let len = self.read_len().do_if_err(|| self.state.mark_broken())?;
-        buf.reserve(len);
-        buf.extend(repeat(0).take(len));
-        self.read.read_exact(buf).do_if_err(|| self.state.mark_broken())?;
+        self.read_onto(buf, len).do_if_err(|| self.state.mark_broken())?;
         Ok(())
     }
 
diff --git a/binschema/src/value.rs b/binschema/src/value.rs
index 3df5a12..8b4a427 100644
--- a/binschema/src/value.rs
+++ b/binschema/src/value.rs
@@ -132,7 +132,7 @@ impl Value {
                 inner: _,
             }) => {
                 d.begin_fixed_len_seq(len)?;
-                let mut elems = Vec::with_capacity(len);
+                let mut elems = Vec::new(); // len may be false
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d,)?);
@@ -145,7 +145,7 @@ impl Value {
                 inner: _,
             }) => {
                 let len = d.begin_var_len_seq()?;
-                let mut elems = Vec::with_capacity(len);
+                let mut elems = Vec::new(); // len may be false
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d)?);
-- 
2.43.0


From e3a5ea036c01f8664958fd0374b79d3cf30d03f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 05/12] fix: finish empty seqs, maps, tuples and structs when
 deserializing with serde

---
 binschema/src/serde/de.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/binschema/src/serde/de.rs b/binschema/src/serde/de.rs
index 93ca7a3..9b149c1 100644
--- a/binschema/src/serde/de.rs
+++ b/binschema/src/serde/de.rs
@@ -81,6 +81,14 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 got_len,
             );
         }
+        if len == 0 {
+            // no element will be there to finish it
+            match seq_like {
+                SeqLike::Seq => self.finish_seq()?,
+                SeqLike::Tuple => self.finish_tuple()?,
+                SeqLike::Unit => (),
+            }
+        }
         v.visit_seq(SeqDecoder {
             decoder: self,
             remaining: len,
@@ -98,6 +106,9 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         N: AsName,
     {
         self.begin_struct()?;
+        if fields.is_empty() {
+            self.finish_struct()?;
+        }
         v.visit_map(StructDecoder {
             decoder: self,
             remaining: fields,
@@ -251,6 +262,9 @@ impl<'a, 'b, 'c, 'd, R: Read> Deserializer<'d> for &'c mut Decoder<'a, 'b, R> {
 
     fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
         let len = self.begin_var_len_seq()?;
+        if len == 0 {
+            self.finish_seq()?;
+        }
         v.visit_map(MapDecoder {
             decoder: self,
             remaining: len,
-- 
2.43.0


From 66e6719d1e97ed177f7543430f1c9f1021ae90ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 06/12] fix: an illegal recursion inside an enum variant is an
 error, not an assertion failure

---
 binschema/src/coder/coder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index cc4b703..ace8e32 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -854,8 +854,10 @@ impl<'a> CoderState<'a> {
             need_variant_name,
         );
         dbg_log!(self, "variant name = {:?}", variant_name);
-        self.top().api_state = ApiState::AutoFinish;
+        // only after the push succeeds, so that it can still be canceled
+        let i = self.stack.len() - 1;
         self.push_need(&variants[variant_ord].inner)?;
+        self.stack[i].api_state = ApiState::AutoFinish;
         Ok(())
     }
 
-- 
2.43.0


From 76fefa4f017dec7afd8e945397accc52bd2f74ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 07/12] fix: a recurse at the root of a schema is an illegal
 schema, not a panic

---
 binschema/src/coder/coder.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index ace8e32..5955b68 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -218,6 +218,14 @@ macro_rules! validate_top {
                     &ApiState::AutoFinish => unreachable!("{:#?}", $self.stack),
                     &ApiState::OptionUninitSomeness => unreachable!(),
                     &ApiState::SeqUninitLen => unreachable!(),
+                    &ApiState::Need if matches!($top.schema, &Schema::Recurse(_)) => {
+                        $self.broken = true;
+                        bail!(
+                            IllegalSchema,
+                            Some($self),
+                            "recurse at root of schema",
+                        )
+                    }
                     &ApiState::Need => bail!(
                         SchemaNonConformance,
                         Some($self),
@@ -375,6 +383,12 @@ impl<'a> CoderState<'a> {
     /// couldn't resolve.
     pub(crate) fn need(&self) -> Result<&'a Schema> {
         match self.stack.iter().rev().next() {
+            Some(&StackFrame {
+                schema: &Schema::Recurse(_),
+                api_state: ApiState::Need,
+            }) => Err(error!(
+                IllegalSchema, Some(self), "recurse at root of schema"
+            )),
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
-- 
2.43.0


From 3e127393de2dd1f013db6c3d73186863395d1e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 08/12] fix: resolve recursion by schema nesting, not by what
 is being coded

---
 binschema/src/coder/coder.rs | 40 +++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 5955b68..be42796 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -95,6 +95,10 @@ macro_rules! dbg_log_pop {
 pub(super) struct StackFrame<'a> {
     schema: &'a Schema,
     api_state: ApiState,
+    /// Index in the stack of the schema node `schema` is directly inside of,
+    /// or None if it's the root. This is not necessarily the frame right below
+    /// this one, as this frame may have been reached through a recurse.
+    parent: Option<usize>,
 }
 
 #[derive(Debug, Clone)]
@@ -171,6 +175,7 @@ impl<'a> CoderState<'a> {
         stack.push(StackFrame {
             schema,
             api_state: ApiState::Need,
+            parent: None,
         });
         CoderState {
             stack,
@@ -306,6 +311,7 @@ macro_rules! validate_need_matches {
             &mut StackFrame {
                 schema: $pat,
                 api_state: ApiState::Need,
+                ..
             } => $ret,
             $got
         )
@@ -342,25 +348,30 @@ impl<'a> CoderState<'a> {
     /// Push a stack frame for needing the schema. If the schema is recurse,
     /// resolve it first.
     fn push_need(&mut self, mut schema: &'a Schema) -> Result<()> {
-        let mut i = self.stack.len();
+        let mut parent = self.stack.len().checked_sub(1);
         while let &Schema::Recurse(n) = schema {
             if n == 0 {
                 self.broken = true;
                 bail!(IllegalSchema, Some(self), "recurse of level 0");
             }
-            i = i
-                .checked_sub(n)
-                .ok_or_else(|| error!(
-                    IllegalSchema,
-                    Some(self),
-                    "recurse past base of stack",
-                ))
-                .do_if_err(|| self.broken = true)?;
-            schema = self.stack[i].schema;
+            for level in 1..=n {
+                let i = parent
+                    .ok_or_else(|| error!(
+                        IllegalSchema,
+                        Some(self),
+                        "recurse past base of stack",
+                    ))
+                    .do_if_err(|| self.broken = true)?;
+                parent = self.stack[i].parent;
+                if level == n {
+                    schema = self.stack[i].schema;
+                }
+            }
         }
         self.stack.push(StackFrame {
             schema,
             api_state: ApiState::Need,
+            parent,
         });
         Ok(())
     }
@@ -386,12 +397,14 @@ impl<'a> CoderState<'a> {
             Some(&StackFrame {
                 schema: &Schema::Recurse(_),
                 api_state: ApiState::Need,
+                ..
             }) => Err(error!(
                 IllegalSchema, Some(self), "recurse at root of schema"
             )),
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
+                ..
             }) => Ok(schema),
             _ => Err(error!(
                 ApiUsage, Some(self), ".need() call while not in need state"
@@ -558,6 +571,7 @@ impl<'a> CoderState<'a> {
                         len,
                         ref mut next,
                     },
+                    ..
                 } => (schema, len, next),
                 "seq elem"
             );
@@ -632,6 +646,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple elem"
             );
@@ -666,6 +681,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple finish"
             );
@@ -714,6 +730,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "struct field"
             );
@@ -757,6 +774,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "struct finish"
             );
@@ -813,6 +831,7 @@ impl<'a> CoderState<'a> {
                 &mut StackFrame {
                     schema,
                     api_state: ApiState::Enum { variant_ord: None },
+                    ..
                 } => schema,
                 "enum variant ord"
             );
@@ -850,6 +869,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Enum {
                         variant_ord: Some(variant_ord),
                     },
+                    ..
                 } => (schema, variant_ord),
                 "enum variant name"
             );
-- 
2.43.0


From 505d1a5d4e964740e6b36fd1b344593c3e7eda14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 09/12] fix: count recursion levels of derived structs,
 newtypes and maps correctly

---
 binschema/src/known_schema.rs | 27 +++++++++++++++++++++++++--
 binschema_derive/src/lib.rs   |  8 +++++++-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 1d0bb58..82342de 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -36,6 +36,9 @@ pub struct RecurseStack<'a>(Option<Node<'a>>);
 struct Node<'a> {
     val: Option<fn(RecurseStack) -> Schema>,
     dbg: &'static str,
+    // whether this is a level of the schema, rather than only a type on the
+    // way to one
+    is_level: bool,
     next: &'a Option<Node<'a>>,
 }
 
@@ -54,6 +57,18 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: Some(T::schema),
             dbg: type_name::<T>(),
+            is_level: true,
+            next: &self.0,
+        }))
+    }
+
+    /// Layer for a type which adds no level to the schema by itself, such as a
+    /// newtype, or a struct whose level is added separately.
+    pub fn with_transparent_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
+        RecurseStack(Some(Node {
+            val: Some(T::schema),
+            dbg: type_name::<T>(),
+            is_level: false,
             next: &self.0,
         }))
     }
@@ -62,6 +77,7 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: None,
             dbg: "",
+            is_level: true,
             next: &self.0,
         }))
     }
@@ -73,11 +89,17 @@ impl<'a> RecurseStack<'a> {
         while let Some(curr) = opt_curr {
             if let Some(curr_val) = curr.val {
                 if curr_val as usize == T::schema as usize {
-                    return Some(level);
+                    return Some(match curr.is_level {
+                        true => level,
+                        // its outermost level is the one just within it
+                        false => usize::saturating_sub(level, 1),
+                    });
                 }
             }
             opt_curr = curr.next;
-            level += 1;
+            if curr.is_level {
+                level += 1;
+            }
         }
 
         None
@@ -182,6 +204,7 @@ macro_rules! maps_known_schema {
         impl<K: KnownSchema, V: KnownSchema> KnownSchema for $c<K, V> {
             fn schema(parent_stack: RecurseStack) -> Schema {
                 let stack = parent_stack.with_type_layer::<Self>();
+                let stack = stack.with_none_layer();
                 schema!(seq(varlen)(tuple {
                     (%K::schema(stack)),
                     (%V::schema(stack)),
diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 1237e6a..b07cf7a 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -112,6 +112,12 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
 
     let name = &input.ident;
+    // an enum is itself a level of its schema. a struct is not: the level, if
+    // there is one (not for a newtype), is added along with the fields.
+    let layer = match &input.data {
+        &Data::Struct(_) => quote! { with_transparent_type_layer },
+        _ => quote! { with_type_layer },
+    };
     let schema = match &input.data {
         &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields),
         &Data::Enum(DataEnum { ref variants, .. }) => {
@@ -139,7 +145,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
                 if let Some(s) = parent_stack.parent_recurse::<Self>() {
                     return s;
                 }
-                let stack = parent_stack.with_type_layer::<Self>();
+                let stack = parent_stack.#layer::<Self>();
                 ::binschema::schema!(#schema)
             }
         }
-- 
2.43.0


From 660d56618a0f0ada88f91f75ce8e3ec050c80a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 10/12] fix: raw identifiers go by their plain names in derived
 schemas, as in serde

---
 binschema_derive/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index b07cf7a..f621f16 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -2,6 +2,7 @@
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use syn::{
+    ext::IdentExt,
     token::Comma,
     punctuated::Punctuated,
     parse_macro_input,
@@ -56,7 +57,8 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
             // struct-like
             let inner = named.iter()
                 .map(|field| {
-                    let field_name = field.ident.as_ref().unwrap();
+                    // serde calls field `r#type` "type"
+                    let field_name = field.ident.as_ref().unwrap().unraw();
                     let inner = field_schema(field);
                     quote! {
                         (#field_name: #inner)
@@ -123,7 +125,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
-                    let variant_name = &variant.ident;
+                    let variant_name = variant.ident.unraw();
                     let inner = fields_schema(&variant.fields);
                     quote! {
                         #variant_name(#inner)
-- 
2.43.0


From d1fbc24bcb281d4a135df992ec3a928619d1b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 11/12] fix: schemas of Range, RangeInclusive and Bound follow
 their serde form

---
 binschema/src/known_schema.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 82342de..76fb3af 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -257,7 +257,7 @@ impl<T: KnownSchema> KnownSchema for Range<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -267,7 +267,7 @@ impl<T: KnownSchema> KnownSchema for RangeInclusive<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -277,9 +277,9 @@ impl<T: KnownSchema> KnownSchema for Bound<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(enum {
+            Unbounded(unit),
             Included(%T::schema(stack)),
             Excluded(%T::schema(stack)),
-            Unbounded(unit),
         })
     }
 }
-- 
2.43.0


From c4d63ae82d88a7e302d5563168490edae6691658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:17 +0000
Subject: [PATCH 12/12] fix: refuse a sequence of the wrong length before
 coding any of it

The serde layer began a unit, tuple or fixed-length sequence and only then
compared lengths, so a call refused with SchemaNonConformance, which
promises an unchanged coder, had already moved it on.
---
 binschema/src/serde/de.rs  | 34 +++++++++++++++++++++++-----------
 binschema/src/serde/ser.rs | 28 ++++++++++++++++++++++++----
 2 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/binschema/src/serde/de.rs b/binschema/src/serde/de.rs
index 9b149c1..9402507 100644
--- a/binschema/src/serde/de.rs
+++ b/binschema/src/serde/de.rs
@@ -41,6 +41,23 @@ impl serde::de::Error for Error {
 }
 
 impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
+    fn ensure_seq_like_len(
+        &mut self,
+        need_len: usize,
+        got_len: Option<usize>,
+    ) -> Result<()> {
+        let got_len = got_len.unwrap_or(need_len);
+        ensure!(
+            need_len == got_len,
+            SchemaNonConformance,
+            Some(self.coder_state()),
+            "need seq-like len {}, got seq-like len {}",
+            need_len,
+            got_len,
+        );
+        Ok(())
+    }
+
     fn deserialize_seq_like<'d, V: Visitor<'d>>(
         &mut self,
         v: V,
@@ -49,18 +66,23 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         let (len, seq_like) =
             match self.need()? {
                 &Schema::Seq(SeqSchema { len: Some(len), .. }) => {
+                    self.ensure_seq_like_len(len, got_len)?;
                     self.begin_fixed_len_seq(len)?;
                     (len, SeqLike::Seq)
                 },
                 &Schema::Seq(SeqSchema { len: None, .. }) => {
                     let len = self.begin_var_len_seq()?;
+                    self.ensure_seq_like_len(len, got_len)?;
                     (len, SeqLike::Seq)
                 },
                 &Schema::Tuple(ref inner) => {
+                    let len = inner.len();
+                    self.ensure_seq_like_len(len, got_len)?;
                     self.begin_tuple()?;
-                    (inner.len(), SeqLike::Tuple)
+                    (len, SeqLike::Tuple)
                 }
                 &Schema::Unit => {
+                    self.ensure_seq_like_len(0, got_len)?;
                     self.decode_unit()?;
                     (0, SeqLike::Unit)
                 }
@@ -71,16 +93,6 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                     schema,
                 ),
             };
-        if let Some(got_len) = got_len {
-            ensure!(
-                len == got_len,
-                SchemaNonConformance,
-                Some(self.coder_state()),
-                "need seq-like len {}, got seq-like len {}",
-                len,
-                got_len,
-            );
-        }
         if len == 0 {
             // no element will be there to finish it
             match seq_like {
diff --git a/binschema/src/serde/ser.rs b/binschema/src/serde/ser.rs
index 3531206..c239e16 100644
--- a/binschema/src/serde/ser.rs
+++ b/binschema/src/serde/ser.rs
@@ -5,6 +5,7 @@ use crate::{
         Result,
         error,
         bail,
+        ensure,
     },
     schema::{
         Schema,
@@ -56,12 +57,14 @@ impl<'a, 'b, W: Write> Encoder<'a, 'b, W> {
                     self.begin_var_len_seq(len)?;
                     SeqLike::Seq
                 },
-                &Schema::Tuple(_) => {
+                &Schema::Tuple(ref inner) => {
+                    let len = inner.len();
+                    self.ensure_seq_like_len(len, got_len)?;
                     self.begin_tuple()?;
                     SeqLike::Tuple
                 },
                 &Schema::Unit => {
-                    self.encode_unit()?;
+                    self.ensure_seq_like_len(0, got_len)?;
                     SeqLike::Unit
                 }
                 schema => bail!(
@@ -76,6 +79,23 @@ impl<'a, 'b, W: Write> Encoder<'a, 'b, W> {
             seq_like,
         })
     }
+
+    fn ensure_seq_like_len(
+        &mut self,
+        need_len: usize,
+        got_len: Option<usize>,
+    ) -> Result<()> {
+        let got_len = got_len.unwrap_or(need_len);
+        ensure!(
+            need_len == got_len,
+            SchemaNonConformance,
+            Some(self.coder_state()),
+            "need seq-like len {}, got seq-like len {}",
+            need_len,
+            got_len,
+        );
+        Ok(())
+    }
 }
 
 macro_rules! leaf_methods {
@@ -252,7 +272,7 @@ impl<'a, 'b, 'c, W: Write> SeqLikeSerializer<'a, 'b, 'c, W> {
             SeqLike::Seq => self.encoder.begin_seq_elem()?,
             SeqLike::Tuple => self.encoder.begin_tuple_elem()?,
             SeqLike::Unit => bail!(
-                Other,
+                SchemaNonConformance,
                 Some(self.encoder.coder_state()),
                 "serialize element to unit as seq-like",
             ),
@@ -264,7 +284,7 @@ impl<'a, 'b, 'c, W: Write> SeqLikeSerializer<'a, 'b, 'c, W> {
         match self.seq_like {
             SeqLike::Seq => self.encoder.finish_seq(),
             SeqLike::Tuple => self.encoder.finish_tuple(),
-            SeqLike::Unit => Ok(()),
+            SeqLike::Unit => self.encoder.encode_unit(),
         }
     }
 }
-- 
2.43.0

