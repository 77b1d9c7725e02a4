From 2542ea74effc3476c8920a143da1579f91503eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:03 +0000
Subject: [PATCH 01/12] fix: allow branches to the outermost label of a
 function

A function body is itself a branch target with the function's result type.
Branching to it was rejected, so `br 0` at the top level of a body was
reported as invalid.
---
 whasm/src/validation/idx.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/whasm/src/validation/idx.rs b/whasm/src/validation/idx.rs
index 562bb2b..89f6caa 100644
--- a/whasm/src/validation/idx.rs
+++ b/whasm/src/validation/idx.rs
@@ -71,10 +71,9 @@ impl<'a> Validate<'a> for idx::Label {
     type ValidationResult = Frame<'a>;
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let idx = self.0 as usize;
-        // the stack must have at least idx+1 elements
-        // since the base frame can not be indexed with
-        // a label.
-        if !( idx + 1 < ctx.stacks.frames.len() ) {
+        // the base frame is the function body itself, and
+        // can be indexed with the outermost label.
+        if !( idx < ctx.stacks.frames.len() ) {
             return Err(Error::UnexpectedEndOfFile);
         }
         let idx = ctx.stacks.frames.len() - idx - 1;
-- 
2.43.0


From c2fdc32cce9a6cea6ed54fe337bdabd37b260e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:03 +0000
Subject: [PATCH 02/12] fix: accept memories of exactly 65536 pages

The limit of a memory is 2^16 pages (4 GiB), inclusive. Memories with a
minimum or maximum of 65536 pages were rejected.
---
 whasm/src/validation/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/ty.rs b/whasm/src/validation/ty.rs
index 9ddcaa9..999f6de 100644
--- a/whasm/src/validation/ty.rs
+++ b/whasm/src/validation/ty.rs
@@ -38,7 +38,7 @@ impl<'a> Validate<'a> for ty::Mem {
     type ValidationResult = ();
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let range = self.lim.validate(ctx)?;
-        if !(range <= (std::u16::MAX as u32)) {
+        if !(range <= (std::u16::MAX as u32) + 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
         Ok(())
-- 
2.43.0


From fbccce2d1a1ac8f810a533c3329422cd4339ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:03 +0000
Subject: [PATCH 03/12] fix: count imports towards the single table and memory
 limit

A module may have at most one table and one memory, including imported
ones. Only the ones defined in the module were counted.
---
 whasm/src/validation/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index f4d45f8..f834fe9 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -68,10 +68,10 @@ impl<'a> Validate<'a> for module::Module {
             exports.push(ty);
         }
 
-        if !(self.tables.len() <= 1) {
+        if !(ctx.tables.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
-        if !(self.mems.len() <= 1) {
+        if !(ctx.mems.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
 
-- 
2.43.0


From 4511216a32852d5d1ed7e3ad69cf5ef665d127cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:03 +0000
Subject: [PATCH 04/12] fix: resolve global initializers against imported
 globals

The initializer of a global may only read imported globals. It was checked
against the globals defined in the module instead, so reading an imported
global was rejected and reading a global not yet initialized was accepted.
---
 whasm/src/validation/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index f834fe9..846bdca 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -31,7 +31,7 @@ impl<'a> Validate<'a> for module::Module {
     fn validate(&'a self, _ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let mut ctx = Context::from(&self)?;
         let mut ctx_globals = Context::default();
-        ctx_globals.use_globals(&self.globals);
+        ctx_globals.use_imported_globals(&self.imports);
 
         for ty in self.types.iter() {
             ty.validate(&mut ctx)?;
-- 
2.43.0


From b03b4a26f36e9882ca035dc49e08325e4b29ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:03 +0000
Subject: [PATCH 05/12] fix: reject modules that declare functions without a
 code section

The number of declared functions was only compared with the number of
bodies when a code section was present. Without one, the declarations were
silently dropped.
---
 whasm/src/binary/module.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/whasm/src/binary/module.rs b/whasm/src/binary/module.rs
index f109086..45b8973 100644
--- a/whasm/src/binary/module.rs
+++ b/whasm/src/binary/module.rs
@@ -67,6 +67,11 @@ impl WasmBinaryParse for module::Module {
             }
         }
 
+        // functions can not be declared without a code section
+        if result.funcs.len() != func_types.len() {
+            return Err(Error::UnexpectedEndOfFile);
+        }
+
         Ok(result)
     }
 }
-- 
2.43.0


From 141e7cc4750856c8112ecc5c203a39e6b3d6e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:03 +0000
Subject: [PATCH 06/12] fix: do not allocate vectors from an unchecked element
 count

The element count comes straight from the input, and a few bytes could
request an allocation of hundreds of gigabytes and abort the process.
---
 whasm/src/binary/core/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/binary/core/vec.rs b/whasm/src/binary/core/vec.rs
index c1f359a..f2059e6 100644
--- a/whasm/src/binary/core/vec.rs
+++ b/whasm/src/binary/core/vec.rs
@@ -55,7 +55,7 @@ use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result};
 impl<T: WasmBinaryParse> WasmBinaryParse for Vec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = vec![];
         for _ in 0..n {
             result.push(bin.parse()?);
         }
@@ -87,7 +87,7 @@ pub struct UnwrappingVec<T: WasmBinaryParseProxy> ( Vec<T::Inner> );
 impl<T: WasmBinaryParseProxy> WasmBinaryParse for UnwrappingVec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = vec![];
         for _ in 0..n {
             result.push(<T as WasmBinaryParse>::parse(bin)?.unwrap());
         }
-- 
2.43.0


From 249a3ca480f2e7b83d78cb41d17995f74a2cce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:03 +0000
Subject: [PATCH 07/12] fix: reject compact vectors with 2^32 or more elements

The total number of elements must fit in an `u32`. Several repetitions
adding up to more than that were accepted and expanded in memory.
---
 whasm/src/binary/core/vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/whasm/src/binary/core/vec.rs b/whasm/src/binary/core/vec.rs
index f2059e6..f430a2c 100644
--- a/whasm/src/binary/core/vec.rs
+++ b/whasm/src/binary/core/vec.rs
@@ -50,7 +50,7 @@
 //! assert_eq!(result, vec![0x2A, 0x8A, 0x42]);
 //! ```
 
-use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result};
+use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result, Error};
 
 impl<T: WasmBinaryParse> WasmBinaryParse for Vec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
@@ -71,6 +71,9 @@ impl<T: WasmBinaryParse + Copy> WasmBinaryParse for CompactVec<T> {
         for _ in 0..k {
             let n: u32 = bin.parse()?;
             let val = bin.parse()?;
+            if result.len() as u64 + n as u64 > std::u32::MAX as u64 {
+                return Err(Error::OutOfRangeUnsignedInteger);
+            }
             for _ in 0..n {
                 result.push(val);
             }
-- 
2.43.0


From 161e423593035e4ec97d61ac2ca38ec9019af91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:03 +0000
Subject: [PATCH 08/12] fix: check the alignment of loads and stores

The alignment of a memory access must not be larger than its natural
alignment. The check was disabled, and the alignment was taken from the
wrong immediate: in the binary format it precedes the offset.
---
 whasm/src/validation/instr.rs | 58 ++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/whasm/src/validation/instr.rs b/whasm/src/validation/instr.rs
index f750d85..e94607a 100644
--- a/whasm/src/validation/instr.rs
+++ b/whasm/src/validation/instr.rs
@@ -160,74 +160,74 @@ impl<'a> Validate<'a> for instr::Instr {
             }
             // ... reserved ...
             // Memory load
-            /* 0x28 */ Instr::I32Load(_offset, align) => {
+            /* 0x28 */ Instr::I32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x29 */ Instr::I64Load(_offset, align) => {
+            /* 0x29 */ Instr::I64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x2A */ Instr::F32Load(_offset, align) => {
+            /* 0x2A */ Instr::F32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x2B */ Instr::F64Load(_offset, align) => {
+            /* 0x2B */ Instr::F64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x2C */ Instr::I32Load8S(_offset, align) => {
+            /* 0x2C */ Instr::I32Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2D */ Instr::I32Load8U(_offset, align) => {
+            /* 0x2D */ Instr::I32Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2E */ Instr::I32Load16S(_offset, align) => {
+            /* 0x2E */ Instr::I32Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x2F */ Instr::I32Load16U(_offset, align) => {
+            /* 0x2F */ Instr::I32Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x30 */ Instr::I64Load8S(_offset, align) => {
+            /* 0x30 */ Instr::I64Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x31 */ Instr::I64Load8U(_offset, align) => {
+            /* 0x31 */ Instr::I64Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x32 */ Instr::I64Load16S(_offset, align) => {
+            /* 0x32 */ Instr::I64Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x33 */ Instr::I64Load16U(_offset, align) => {
+            /* 0x33 */ Instr::I64Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x34 */ Instr::I64Load32S(_offset, align) => {
+            /* 0x34 */ Instr::I64Load32S(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
-            /* 0x35 */ Instr::I64Load32U(_offset, align) => {
+            /* 0x35 */ Instr::I64Load32U(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory store
-            /* 0x36 */ Instr::I32Store(_offset, align) => {
+            /* 0x36 */ Instr::I32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x37 */ Instr::I64Store(_offset, align) => {
+            /* 0x37 */ Instr::I64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x38 */ Instr::F32Store(_offset, align) => {
+            /* 0x38 */ Instr::F32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x39 */ Instr::F64Store(_offset, align) => {
+            /* 0x39 */ Instr::F64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x3A */ Instr::I32Store8(_offset, align) => {
+            /* 0x3A */ Instr::I32Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x3B */ Instr::I32Store16(_offset, align) => {
+            /* 0x3B */ Instr::I32Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x3C */ Instr::I64Store8(_offset, align) => {
+            /* 0x3C */ Instr::I64Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x3D */ Instr::I64Store16(_offset, align) => {
+            /* 0x3D */ Instr::I64Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x3E */ Instr::I64Store32(_offset, align) => {
+            /* 0x3E */ Instr::I64Store32(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory management
@@ -760,25 +760,21 @@ impl<'a> Validate<'a> for instr::Instr {
     }
 }
 
-fn validate_load<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_load<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    if !( align < 32 && 1<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32])?;
     ctx.stacks.push_operands(&[val]);
     Ok(())
 }
 
-fn validate_store<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_store<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    if !( align < 32 && 1<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32, val])?;
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From 83b92dc64af7a0cb90acc5048038958a93ab2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:15 +0000
Subject: [PATCH 09/12] fix: accept file names that are not valid Unicode

---
 parser/src/main.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/parser/src/main.rs b/parser/src/main.rs
index 992e85e..45f4c15 100644
--- a/parser/src/main.rs
+++ b/parser/src/main.rs
@@ -1,20 +1,21 @@
+use std::ffi::OsString;
 use std::io::Read;
 use whasm::structure::{module::Module};
 use whasm::binary::{WasmBinary};
 use whasm::validation::{ValidationEntry};
 
 fn main() {
-    let args: Vec<String> = std::env::args().collect();
+    let args: Vec<OsString> = std::env::args_os().collect();
     let config = Config::new(&args)
         .unwrap_or_else(|err| {
             println!("Problem pargin input arguments: {}", err);
-            println!("Usage: {} [-p|--print] file.wasm", args[0]);
+            println!("Usage: {} [-p|--print] file.wasm", args[0].to_string_lossy());
             std::process::exit(1);
         });
 
     let mut file = std::fs::File::open(&config.filename)
         .unwrap_or_else(|err| {
-            println!("Could not open file \"{}\"", config.filename);
+            println!("Could not open file \"{}\"", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -22,7 +23,7 @@ fn main() {
     let mut buffer = Vec::new();
     file.read_to_end(&mut buffer)
         .unwrap_or_else(|err| {
-            println!("Could not read file \"{}\"", config.filename);
+            println!("Could not read file \"{}\"", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -31,14 +32,14 @@ fn main() {
 
     let module: Module = iter.parse()
         .unwrap_or_else(|err| {
-            println!("Error parsing file \"{}\".", config.filename);
+            println!("Error parsing file \"{}\".", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
 
     module.validate()
         .unwrap_or_else(|err| {
-            println!("Error validating file \"{}\".", config.filename);
+            println!("Error validating file \"{}\".", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -49,29 +50,29 @@ fn main() {
 }
 
 struct Config {
-    filename: String,
+    filename: OsString,
     print: bool,
 }
 
 impl Config {
-    fn new(args: &[String]) -> Result<Config, Box<dyn std::error::Error>> {
+    fn new(args: &[OsString]) -> Result<Config, Box<dyn std::error::Error>> {
         let mut print = false;
-        let mut filename = "".into();
+        let mut filename = OsString::new();
 
         let mut args = args.iter();
         let _binname = args.next().ok_or("Not enough arguments.")?;
         for arg in args {
-            match &arg[..] {
-                "-p" | "--print" => {
+            match arg.to_str() {
+                Some("-p") | Some("--print") => {
                     print = true;
                 },
-                other => {
-                    filename = other.into();
+                _ => {
+                    filename = arg.clone();
                 },
             }
         }
 
-        if filename == "" {
+        if filename.is_empty() {
             return Err("Not enough arguments.")?;
         }
 
-- 
2.43.0


From 6f60202691c527b7938a6bfc7064d9aa43d6f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:41 +0000
Subject: [PATCH 10/12] fix: reject else and end markers inside an expression

A module built in memory could have Instr::Else or Instr::End among the
instructions of a body. Validation took them for the delimiters of the
enclosing construct, and accepted bodies that are no WebAssembly code.
---
 whasm/src/validation/instr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whasm/src/validation/instr.rs b/whasm/src/validation/instr.rs
index e94607a..d6395c2 100644
--- a/whasm/src/validation/instr.rs
+++ b/whasm/src/validation/instr.rs
@@ -7,6 +7,10 @@ impl<'a> Validate<'a> for instr::Expr {
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let instr::Expr(instrs) = self;
         for instr in instrs.iter() {
+            // these only delimit expressions, they are not part of them.
+            if *instr == Instr::Else || *instr == Instr::End {
+                return Err(Error::UnexpectedEndOfFile);
+            }
             instr.validate(ctx)?;
         }
         Ok(())
-- 
2.43.0


From 8f50fb42e9636b8cac264aa3eaa63a6f7e586c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:41 +0000
Subject: [PATCH 11/12] fix: reject constructs with more than one result

A block, loop or if of a module built in memory can list several result
types. WebAssembly 1.0 allows at most one, as for functions.
---
 whasm/src/validation/ty.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/whasm/src/validation/ty.rs b/whasm/src/validation/ty.rs
index 999f6de..2181b1e 100644
--- a/whasm/src/validation/ty.rs
+++ b/whasm/src/validation/ty.rs
@@ -55,6 +55,9 @@ impl<'a> Validate<'a> for ty::Global {
 impl<'a> Validate<'a> for ty::RetVal {
     type ValidationResult = &'a [ty::Val];
     fn validate(&'a self, _ctx: &mut Context) -> Result<Self::ValidationResult> {
+        if !(self.0.len() <= 1) {
+            return Err(Error::UnexpectedEndOfFile);
+        }
         Ok(&self.0[..])
     }
 }
-- 
2.43.0


From e8f8f820ccad3775a622a7f5aff6a48026cf54a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:41 +0000
Subject: [PATCH 12/12] fix: name the right kind of integer in the out of range
 message

The message for an unsigned integer out of range spoke of a signed one.
---
 whasm/src/binary/core/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/binary/core/error.rs b/whasm/src/binary/core/error.rs
index fd03eaa..dc7817c 100644
--- a/whasm/src/binary/core/error.rs
+++ b/whasm/src/binary/core/error.rs
@@ -15,7 +15,7 @@ pub enum Error {
     #[error(display = "Reading out of range signed integer.")]
     OutOfRangeSignedInteger,
 
-    #[error(display = "Reading out of range signed integer.")]
+    #[error(display = "Reading out of range unsigned integer.")]
     OutOfRangeUnsignedInteger,
 
     #[error(display = "Byte sequence is not a valid utf-8 encoding.")]
-- 
2.43.0

