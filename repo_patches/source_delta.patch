From 88c8f96177a5334607af2735f1297dc01dbf886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:15 +0000
Subject: [PATCH 01/13] fix: cvttsd2siq converts to a 64-bit integer (REX.W was
 missing)

---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index a7ff5c2..61159e4 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -218,7 +218,7 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Cvttsd2siq(op1, op2) => {
             quote! {
                 jit.emitb(0xf2);
-                jit.enc_mr(&[0x0f, 0x2c], #op1, #op2);
+                jit.enc_rexw_mr(&[0x0f, 0x2c], #op1, #op2);
             }
         }
 
-- 
2.43.0


From dfa8ac9377bdae10f7d8c3b986279eec049f2ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:44 +0000
Subject: [PATCH 02/13] fix: roundpd with a rip-relative label operand refers
 to the label

The immediate byte follows the displacement, so the relocation has to
account for it.
---
 monoasm/src/jit_memory.rs | 6 ++++++
 monoasm_macro/src/asm.rs  | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 8cfc567..f263c11 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -629,6 +629,12 @@ impl JitMemory {
         self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, Imm::None);
     }
 
+    /// REX Op ModRM imm
+    /// RMI-> ModRM:reg(r) ModRM:r/m(w) imm
+    pub fn enc_mr_imm(&mut self, op: &[u8], reg: Reg, rm_op: Rm, imm: Imm) {
+        self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, imm);
+    }
+
     pub fn enc_mr_byte(&mut self, op: &[u8], reg: Reg, rm_op: Rm) {
         self.encode(op, Rex::Byte, ModRM::Reg(reg), rm_op, Imm::None);
     }
diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 61159e4..e265374 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -238,9 +238,9 @@ pub fn compile(inst: Inst) -> TokenStream {
 
         Inst::Roundpd(Xmm(op1), op2, ImmOperand(op3)) => {
             quote! {
+                let imm: u8 = #op3;
                 jit.emitb(0x66);
-                jit.enc_mr(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2);
-                jit.emitb(#op3);
+                jit.enc_mr_imm(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2, Imm::B(imm as i8));
             }
         }
 
-- 
2.43.0


From 0616c9bb733cb9fd2e84a3b7959a9f9e85142ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:44 +0000
Subject: [PATCH 03/13] fix: reject register numbers that do not exist instead
 of wrapping them

---
 monoasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index f36aeab..9e478af 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -47,6 +47,7 @@ pub struct Reg(u8);
 
 impl Reg {
     pub fn from(num: u64) -> Self {
+        assert!(num <= 16, "Illegal register number.");
         Reg(num as u8)
     }
 
-- 
2.43.0


From 8dc1b9aff712cc5e21b510ef6051f3d1b004d100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:45 +0000
Subject: [PATCH 04/13] fix: reject rsp as an index register

It was silently encoded as 'no index'.
---
 monoasm/src/jit_memory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index f263c11..1f6f359 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -702,6 +702,10 @@ impl JitMemory {
             Rex::Byte => JitMemory::rex_none_byte,
         };
         assert!(!reg.is_rip());
+        if let Mode::Ind(Scale::S1(_, index), _) = rm.mode {
+            // index == 4 without REX.X means "no index" in SIB.
+            assert!(index.0 != 4, "rsp can not be used as an index register.");
+        }
         if rm.base.is_rip() {
             // For rip, only indirect addressing with disp32 ([rip + disp32]) is allowed.
             // [rip] and [rip + disp8] are to be converted to [rip + disp32].
-- 
2.43.0


From ee47f5ba5cdf8d03136568e85775dd286cfc0b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:42 +0000
Subject: [PATCH 05/13] fix: include() answers for the code pages whichever
 page is selected

---
 monoasm/src/jit_memory.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 1f6f359..a1c7a8e 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -272,7 +272,9 @@ impl JitMemory {
     }
 
     pub fn include(&self, ptr: *mut u8) -> bool {
-        self.contents() <= ptr && ptr < unsafe { self.contents().add(PAGE_SIZE * 2) }
+        // The code pages are contiguous from page 0, whichever page is selected.
+        let start = self.pages[0].contents();
+        start <= ptr && ptr < unsafe { start.add(PAGE_SIZE * 2) }
     }
 
     /// Resolve all relocations and return the top addresss of generated machine code as a function pointer.
-- 
2.43.0


From 3568581325308bb993262213cf67bd32a95d1635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:57 +0000
Subject: [PATCH 06/13] fix: convert the whole displacement expression to i32

`[rax + (a + b)]` expanded to `a + b as i32`, which does not compile unless a is an i32.
---
 monoasm_macro/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 073c872..4624416 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -484,7 +484,7 @@ impl Parse for Disp {
             let content;
             syn::parenthesized!(content in input);
             let expr = content.parse::<Expr>()?;
-            let expr = quote!(#expr as i32);
+            let expr = quote!((#expr) as i32);
             Ok(Disp::Expr(expr))
         } else if input.peek(LitInt) {
             // e.g. "[rax + 4]"
-- 
2.43.0


From 3c11a1a5d6f7ff839c141d1472f74475740e0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:57 +0000
Subject: [PATCH 07/13] fix: convert the whole expression of `call (expr)` to
 i64

`call (a + b)` expanded to `a + b as i64`, which does not compile unless a is an i64.
---
 monoasm_macro/src/asm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index e265374..33150b6 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -286,11 +286,12 @@ pub fn compile(inst: Inst) -> TokenStream {
             }
             Dest::Disp(imm) => {
                 quote! {
-                    if let Ok(imm) = i32::try_from(#imm as i64) {
+                    let imm = (#imm) as i64;
+                    if let Ok(imm) = i32::try_from(imm) {
                         jit.emitb(0xe8);
                         jit.emitl(imm as u32);
                     } else {
-                        panic!("'CALL ({})' out of range.", #imm);
+                        panic!("'CALL ({})' out of range.", imm);
                     }
                 }
             }
-- 
2.43.0


From fc8e0b4d72233d4b876709e3555570142d9cde5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:57 +0000
Subject: [PATCH 08/13] fix: accept any integer expression as the immediate of
 roundpd

Every other instruction does; roundpd required an u8 expression.
---
 monoasm_macro/src/asm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 33150b6..4c72585 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -238,7 +238,8 @@ pub fn compile(inst: Inst) -> TokenStream {
 
         Inst::Roundpd(Xmm(op1), op2, ImmOperand(op3)) => {
             quote! {
-                let imm: u8 = #op3;
+                let imm = (#op3) as i64;
+                let imm = u8::try_from(imm).expect("'ROUNDPD xmm, xmm/m128, imm' imm should be 8 bit.");
                 jit.emitb(0x66);
                 jit.enc_mr_imm(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2, Imm::B(imm as i8));
             }
-- 
2.43.0


From b2c5480ce779244e92c7507c65479b5ec3b44114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:57 +0000
Subject: [PATCH 09/13] fix: evaluate each operand expression once

`movq R(e), imm`, `xchgq R(e), R(e)`, `testq R(e), imm` and `testb R(e), imm` evaluated e two or three times.
---
 monoasm_macro/src/asm.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 4c72585..611bdc9 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -33,16 +33,17 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Xchg(size, op1, op2) => match size {
             OperandSize::QWORD => match (&op1, &op2) {
                 (RmOperand::Reg(r1), RmOperand::Reg(r2)) => quote! {
-                    if #r1 == Reg::from(0) {
-                        if #r2 == Reg::from(0) {
+                    let (r1, r2) = (#r1, #r2);
+                    if r1 == Reg::from(0) {
+                        if r2 == Reg::from(0) {
                             jit.emitb(0x90);
                         } else {
-                            jit.enc_rexw_o(0x90, #r2);
+                            jit.enc_rexw_o(0x90, r2);
                         }
-                    } else if #r2 == Reg::from(0) {
-                        jit.enc_rexw_o(0x90, #r1);
+                    } else if r2 == Reg::from(0) {
+                        jit.enc_rexw_o(0x90, r1);
                     } else {
-                        jit.enc_rexw_mr(&[0x87], #r2, #op1);
+                        jit.enc_rexw_mr(&[0x87], r2, Rm::reg(r1));
                     }
                 },
                 (op1, RmOperand::Reg(op2)) => quote! {
@@ -66,11 +67,12 @@ pub fn compile(inst: Inst) -> TokenStream {
                         quote! {
                             let imm = (#i) as i64;
                             if let Ok(imm) = i32::try_from(imm)  {
-                                if #reg.is_rax() {
+                                let reg = #reg;
+                                if reg.is_rax() {
                                     jit.emit(&[0x48, 0xa9]);
                                     jit.emitl(imm as u32);
                                 } else {
-                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(imm));
+                                    jit.enc_rexw_mi(0xf7, Rm::reg(reg), Imm::L(imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -99,11 +101,12 @@ pub fn compile(inst: Inst) -> TokenStream {
                         quote! {
                             let imm = (#i) as i64;
                             if let Ok(imm) = i8::try_from(imm)  {
-                                if #reg.is_rax() {
+                                let reg = #reg;
+                                if reg.is_rax() {
                                     jit.emit(&[0xa8]);
                                     jit.emitb(imm as u8);
                                 } else {
-                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(imm));
+                                    jit.enc_mi_byte(0xf6, Rm::reg(reg), Imm::B(imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -374,7 +377,6 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
                 assert_eq!(OperandSize::QWORD, size);
                 quote!(
                     let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
                     // MOV r64, imm64
                     jit.enc_rexw_o(0xb8, #expr);
                     jit.emitq(imm as u64);
@@ -382,7 +384,6 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
             } else {
                 quote!(
                     let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
                     //if let Ok(imm) = i32::try_from(imm) {
                     //    // MOV r/m64, imm32
                     //    jit.enc_rexw_mi(0xc7, rm_op, Imm::L(imm));
-- 
2.43.0


From 34d8320a98562e557f6935876a0358d130aac69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:43 +0000
Subject: [PATCH 10/13] fix: keep the expansion's local variables from
 capturing the user's

An operand expression that mentions a variable called imm, jit or op2 saw
the expansion's variable of that name, so that for example
`addq [rax + (imm)], 1` silently used 1 as the displacement.
---
 monoasm_macro/src/asm.rs | 10 +++++++++-
 monoasm_macro/src/lib.rs |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 611bdc9..9eeeef1 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -1,6 +1,14 @@
 use super::inst::*;
 use proc_macro2::TokenStream;
-use quote::quote;
+use quote::quote_spanned;
+
+/// `quote!` with mixed-site hygiene: the local variables of an expansion
+/// neither capture nor are visible to the expressions written by the user.
+macro_rules! quote {
+    ($($tt:tt)*) => {
+        quote_spanned!(proc_macro2::Span::mixed_site()=> $($tt)*)
+    };
+}
 
 pub fn compile(inst: Inst) -> TokenStream {
     match inst {
diff --git a/monoasm_macro/src/lib.rs b/monoasm_macro/src/lib.rs
index 6f4b08d..fbb4863 100644
--- a/monoasm_macro/src/lib.rs
+++ b/monoasm_macro/src/lib.rs
@@ -6,7 +6,7 @@ extern crate proc_macro;
 extern crate quote;
 extern crate syn;
 use proc_macro::TokenStream;
-use quote::quote;
+use quote::{quote, quote_spanned};
 use syn::parse_macro_input;
 mod asm;
 mod inst;
@@ -23,7 +23,7 @@ use asm::*;
 pub fn monoasm(tokens: TokenStream) -> TokenStream {
     let stmts = parse_macro_input!(tokens as inst::Stmts);
     let base = stmts.base;
-    let mut ts = quote!(let mut jit = #base;);
+    let mut ts = quote_spanned!(proc_macro2::Span::mixed_site()=> let mut jit = #base;);
     ts.extend(stmts.contents.into_iter().map(compile));
     quote!({ #ts }).into()
 }
-- 
2.43.0


From f83bce99aa2772db65986a45651ec606432a124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:43 +0000
Subject: [PATCH 11/13] fix: refuse a label displacement on a base other than
 rip

`[rax + label]` was accepted and assembled as `[rax + 0]`.
---
 monoasm/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index 9e478af..22af958 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -227,6 +227,12 @@ impl Rm {
     }
 
     pub fn ind(base: Reg, disp: Disp, scale: Scale) -> Self {
+        if let Disp::Label(_) = disp {
+            assert!(
+                base.is_rip(),
+                "label displacement is allowed only for RIP-relative addressing."
+            );
+        }
         let mode = Mode::Ind(scale, disp);
         Self { base, mode }
     }
-- 
2.43.0


From 99f9f59c38bb5179f67ff7e9e362e876cde8d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:43 +0000
Subject: [PATCH 12/13] fix: refuse a subtracted label displacement

`[rip - label]` was accepted and assembled as `[rip + label]`.
---
 monoasm_macro/src/parse.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 4624416..aee169d 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -275,7 +275,7 @@ impl Parse for IndAddr {
                 Ok(IndAddr {
                     base,
                     scale: Scale::None,
-                    disp: disp.neg(),
+                    disp: disp.neg().map_err(|msg| content.error(msg))?,
                 })
             } else if content.peek(Ident) {
                 let ident = content.parse::<Ident>().unwrap();
@@ -301,7 +301,7 @@ impl Parse for IndAddr {
                             };
                             let disp = content.parse::<Disp>()?;
                             if negate {
-                                disp.neg()
+                                disp.neg().map_err(|msg| content.error(msg))?
                             } else {
                                 disp
                             }
@@ -441,11 +441,11 @@ pub enum Disp {
 }
 
 impl Disp {
-    fn neg(self) -> Self {
+    fn neg(self) -> Result<Self, &'static str> {
         match self {
-            Disp::Imm(disp) => Disp::Imm(-disp),
-            Disp::Expr(ts) => Disp::Expr(quote!(-(#ts))),
-            disp => disp,
+            Disp::Imm(disp) => Ok(Disp::Imm(-disp)),
+            Disp::Expr(ts) => Ok(Disp::Expr(quote!(-(#ts)))),
+            Disp::Label(_) => Err("label displacement can not be subtracted."),
         }
     }
 }
-- 
2.43.0


From 233c75760b652808bd1539d44527154f306b7cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:23 +0000
Subject: [PATCH 13/13] fix: accept the displacement -2147483648 written as a
 literal

`[rax - 2147483648]` was refused because the magnitude was parsed as i32
before the sign was applied.
---
 monoasm_macro/src/parse.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index aee169d..3251bb6 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -435,7 +435,7 @@ pub fn is_single(input: ParseStream) -> bool {
 ///----------------------------------------------------------------------
 #[derive(Clone, Debug)]
 pub enum Disp {
-    Imm(i32),
+    Imm(i64),
     Expr(TokenStream),
     Label(Ident),
 }
@@ -453,9 +453,10 @@ impl Disp {
 impl ToTokens for Disp {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let ts = match self {
-            Disp::Imm(disp) => quote!(
-                Disp::from_disp(#disp)
-            ),
+            Disp::Imm(disp) => match i32::try_from(*disp) {
+                Ok(disp) => quote!( Disp::from_disp(#disp) ),
+                Err(_) => quote!(compile_error!("displacement is out of range.")),
+            },
             Disp::Expr(ts) => quote!(
                 Disp::from_disp(#ts)
             ),
@@ -488,7 +489,7 @@ impl Parse for Disp {
             Ok(Disp::Expr(expr))
         } else if input.peek(LitInt) {
             // e.g. "[rax + 4]"
-            let disp: i32 = input.parse::<LitInt>()?.base10_parse()?;
+            let disp: i64 = input.parse::<LitInt>()?.base10_parse()?;
             Ok(Disp::Imm(disp))
         } else if input.peek(Ident) {
             let label = input.parse::<Ident>().unwrap();
-- 
2.43.0

