//! Runs the library on cases and records what it reports.
//!
//! Each line of the input is `<type> <prelude> <no-trace> <hex bytes>`; each line of the output is a
//! JSON record of the case and of the outcome, in the form the specification reads.

mod built;
mod meter;
mod tok;

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tok::{external, Tok, Trace};
use whasm::binary::{Byte, CompactVec, Consume, Error, Sized, UnwrappingVec, WasmBinary, WasmBinaryParse};
use whasm::structure::{instr, module, ty};
use whasm::validation::ValidationEntry;

struct Outcome {
    result: &'static str,
    trace: Trace,
    used: usize,
    error: (u32, u32),
    valid: i32,
    ext: Trace,
    text: String,
}

impl Outcome {
    fn new(result: &'static str) -> Self {
        Outcome { result, trace: vec![], used: 0, error: (0, 0), valid: -1, ext: vec![], text: String::new() }
    }
}

fn kind(e: &Error) -> (u32, u32) {
    match e {
        Error::UnexpectedEndOfFile => (1, 0),
        Error::InvalidVariantId { id, .. } => (2, *id as u32),
        Error::OutOfRangeSignedInteger => (3, 0),
        Error::OutOfRangeUnsignedInteger => (4, 0),
        Error::InvalidUtf8Encoding => (5, 0),
        Error::UnexpectedOpcode { .. } => (6, 0),
        Error::InvalidPreambleMagic => (7, 0),
        Error::InvalidPreambleVersion => (8, 0),
        Error::UnexpectedSectionId { id } => (9, id.0 as u32),
        Error::InvalidSectionId { id } => (10, id.0 as u32),
        Error::SectionSizeMissmatch { id } => (11, id.0 as u32),
        Error::FunctionSizeMissmatch => (12, 0),
        Error::SizeMissmatch => (13, 0),
        #[allow(unreachable_patterns)]
        _ => (98, 0),
    }
}

fn failed(e: &Error) -> Outcome {
    Outcome { error: kind(e), text: e.to_string(), ..Outcome::new("err") }
}

fn element<T: WasmBinaryParse + Tok>(bytes: &[u8], trace: bool) -> Outcome {
    let mut iter = bytes.iter().copied();
    match meter::metered(|| iter.parse::<T>()) {
        Ok(x) => {
            let mut out = Outcome::new("ok");
            out.used = bytes.len() - iter.len();
            if trace { x.tok(&mut out.trace); }
            out
        },
        Err(e) => failed(&e),
    }
}

/// Decodes and validates a module taken from `iter`; `left` counts what is left of it.
fn module_from<I: Iterator<Item = u8>>(mut iter: I, len: usize, trace: bool) -> Outcome {
    match meter::metered(|| iter.parse::<module::Module>()) {
        Ok(x) => {
            let mut out = Outcome::new("ok");
            out.used = len - iter.count();
            match meter::metered(|| x.validate()) {
                Ok(r) => {
                    out.valid = 1;
                    out.ext = r.imports.iter().chain(r.exports.iter()).map(external).collect();
                },
                Err(_) => out.valid = 0,
            }
            if trace { x.tok(&mut out.trace); }
            out
        },
        Err(e) => failed(&e),
    }
}

/// Validates a module built in memory.
fn built(bytes: &[u8]) -> Outcome {
    let m = match catch_unwind(|| built::module(bytes)) {
        Ok(m) => m,
        Err(_) => return Outcome::new("unbuilt"),
    };
    let mut out = Outcome::new("ok");
    out.used = bytes.len();
    match m.validate() {
        Ok(r) => {
            out.valid = 1;
            out.ext = r.imports.iter().chain(r.exports.iter()).map(external).collect();
        },
        Err(_) => out.valid = 0,
    }
    out
}

/// Bytes in two chained halves, boxed, without any size hint.
struct Opaque<'a>(&'a [u8]);
impl<'a> Iterator for Opaque<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let (first, rest) = self.0.split_first()?;
        self.0 = rest;
        Some(*first)
    }
}

fn same(a: &Outcome, b: &Outcome) -> bool {
    a.result == b.result && a.trace == b.trace && a.used == b.used && a.error == b.error
        && a.valid == b.valid && a.ext == b.ext
}

/// Decodes and validates repeatedly, from different kinds of iterators; all must agree.
fn stable(bytes: &[u8], trace: bool) -> Outcome {
    let first = module_from(bytes.iter().copied(), bytes.len(), true);
    let (a, b) = bytes.split_at(bytes.len() / 2);
    let boxed: Box<dyn Iterator<Item = u8>> = Box::new(bytes.to_vec().into_iter());
    let others = vec![
        module_from(bytes.to_vec().into_iter(), bytes.len(), true),
        module_from(Opaque(bytes), bytes.len(), true),
        module_from(a.iter().chain(b.iter()).copied(), bytes.len(), true),
        module_from(boxed, bytes.len(), true),
        module_from(bytes.iter().copied().peekable(), bytes.len(), true),
        module_from(std::collections::VecDeque::from(bytes.to_vec()).into_iter(), bytes.len(), true),
        module_from(bytes.iter().copied().take(bytes.len()).fuse(), bytes.len(), true),
    ];
    if others.iter().any(|o| !same(o, &first)) {
        return Outcome::new("unstable");
    }
    // validation does not change the module, and can be repeated
    if let Ok(m) = bytes.iter().copied().parse::<module::Module>() {
        let before = format!("{:?}", m);
        let a = m.validate().map(|r| r.imports.iter().chain(r.exports.iter()).map(external).collect::<Vec<_>>()).ok();
        let b = m.validate().map(|r| r.imports.iter().chain(r.exports.iter()).map(external).collect::<Vec<_>>()).ok();
        if a != b || a.is_some() != (first.valid == 1) || before != format!("{:?}", m) {
            return Outcome::new("unstable");
        }
    }
    if trace { first } else { Outcome { trace: vec![], ..first } }
}

macro_rules! table {
    ($kind:expr, $bytes:expr, $trace:expr; $($name:literal => $t:ty),* $(,)?) => {
        match $kind {
            "module" => module_from($bytes.iter().copied(), $bytes.len(), $trace),
            "stable" => stable($bytes, $trace),
            "built" => built($bytes),
            $( $name => element::<$t>($bytes, $trace), )*
            other => { eprintln!("unknown type {}", other); std::process::exit(3) }
        }
    };
}

fn run(kind: &str, bytes: &[u8], trace: bool) -> Outcome {
    table! { kind, bytes, trace;
        "u8" => u8, "u16" => u16, "u32" => u32, "u64" => u64,
        "i8" => i8, "i16" => i16, "i32" => i32, "i64" => i64,
        "f32" => f32, "f64" => f64, "byte" => Byte,
        "a0.byte" => [Byte; 0], "a1.byte" => [Byte; 1], "a2.byte" => [Byte; 2], "a3.byte" => [Byte; 3],
        "a4.byte" => [Byte; 4], "a5.byte" => [Byte; 5], "a6.byte" => [Byte; 6], "a7.byte" => [Byte; 7],
        "a8.byte" => [Byte; 8],
        "a0.u32" => [u32; 0], "a1.u32" => [u32; 1], "a2.u32" => [u32; 2], "a3.u32" => [u32; 3],
        "a4.u32" => [u32; 4], "a5.u32" => [u32; 5], "a6.u32" => [u32; 6], "a7.u32" => [u32; 7],
        "a8.u32" => [u32; 8],
        "a1.i64" => [i64; 1], "a2.i64" => [i64; 2], "a3.i64" => [i64; 3], "a4.i64" => [i64; 4],
        "a5.i64" => [i64; 5], "a6.i64" => [i64; 6], "a7.i64" => [i64; 7], "a8.i64" => [i64; 8],
        "a1.f32" => [f32; 1], "a2.f32" => [f32; 2], "a3.f32" => [f32; 3], "a4.f32" => [f32; 4],
        "a5.f32" => [f32; 5], "a6.f32" => [f32; 6], "a7.f32" => [f32; 7], "a8.f32" => [f32; 8],
        "a2.f64" => [f64; 2], "a3.a2.u8" => [[u8; 2]; 3], "a2.vec.byte" => [Vec<Byte>; 2],
        "a3.string" => [String; 3], "a2.sized.u32" => [Sized<u32>; 2],
        "vec.u8" => Vec<u8>, "vec.u16" => Vec<u16>, "vec.u32" => Vec<u32>, "vec.u64" => Vec<u64>,
        "vec.i8" => Vec<i8>, "vec.i16" => Vec<i16>, "vec.i32" => Vec<i32>, "vec.i64" => Vec<i64>,
        "vec.f32" => Vec<f32>, "vec.f64" => Vec<f64>, "vec.byte" => Vec<Byte>,
        "vec.string" => Vec<String>, "vec.vec.u8" => Vec<Vec<u8>>, "vec.vec.byte" => Vec<Vec<Byte>>,
        "vec.a3.byte" => Vec<[Byte; 3]>, "vec.sized.u32" => Vec<Sized<u32>>,
        "vec.sized.vec.byte" => Vec<Sized<Vec<Byte>>>, "vec.sized.consume" => Vec<Sized<Consume>>,
        "vec.valtype" => Vec<ty::Val>,
        "cvec.u8" => CompactVec<u8>, "cvec.u16" => CompactVec<u16>, "cvec.u32" => CompactVec<u32>,
        "cvec.u64" => CompactVec<u64>, "cvec.i32" => CompactVec<i32>, "cvec.i64" => CompactVec<i64>,
        "cvec.f32" => CompactVec<f32>, "cvec.f64" => CompactVec<f64>, "cvec.valtype" => CompactVec<ty::Val>,
        "vec.cvec.u8" => Vec<CompactVec<u8>>, "sized.cvec.u8" => Sized<CompactVec<u8>>,
        "uvec.byte" => UnwrappingVec<Byte>, "uvec.sized.u32" => UnwrappingVec<Sized<u32>>,
        "uvec.sized.vec.byte" => UnwrappingVec<Sized<Vec<Byte>>>,
        "uvec.sized.string" => UnwrappingVec<Sized<String>>,
        "sized.uvec.sized.vec.byte" => Sized<UnwrappingVec<Sized<Vec<Byte>>>>,
        "string" => String,
        "sized.byte" => Sized<Byte>, "sized.u32" => Sized<u32>, "sized.i64" => Sized<i64>,
        "sized.f64" => Sized<f64>, "sized.a0.byte" => Sized<[Byte; 0]>, "sized.a2.byte" => Sized<[Byte; 2]>,
        "sized.a3.byte" => Sized<[Byte; 3]>, "sized.vec.byte" => Sized<Vec<Byte>>,
        "sized.vec.u32" => Sized<Vec<u32>>, "sized.string" => Sized<String>,
        "sized.consume" => Sized<Consume>, "sized.sized.byte" => Sized<Sized<Byte>>,
        "sized.sized.vec.byte" => Sized<Sized<Vec<Byte>>>, "sized.sized.consume" => Sized<Sized<Consume>>,
        "sized.vec.sized.consume" => Sized<Vec<Sized<Consume>>>,
        "sized.vec.sized.vec.byte" => Sized<Vec<Sized<Vec<Byte>>>>,
        "sized.sized.sized.u32" => Sized<Sized<Sized<u32>>>,
        "consume" => Consume,
        "valtype" => ty::Val, "limits" => ty::Limits, "functype" => ty::Func, "tabletype" => ty::Table,
        "memtype" => ty::Mem, "globaltype" => ty::Global, "blocktype" => ty::RetVal, "mut" => ty::Mut,
        "elemtype" => ty::Elem,
        "import" => module::Import, "export" => module::Export, "global" => module::Global,
        "table" => module::Table, "mem" => module::Mem,
        "elem" => module::Elem, "data" => module::Data, "func" => module::Func, "start" => module::Start,
        "instr" => instr::Instr, "exprtop" => instr::Expr,
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn nums(out: &mut String, list: &[u32]) {
    use std::fmt::Write;
    out.push('[');
    for (i, x) in list.iter().enumerate() {
        if i > 0 { out.push(','); }
        write!(out, "{}", x).unwrap();
    }
    out.push(']');
}
fn lists(out: &mut String, list: &[Vec<u32>]) {
    out.push('[');
    for (i, x) in list.iter().enumerate() {
        if i > 0 { out.push(','); }
        nums(out, x);
    }
    out.push(']');
}

fn serve() {
    let flush = std::env::var("RECORD_FLUSH").is_ok();
    let texts = std::env::var("RECORD_TEXTS").is_ok();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut parts = line.split(' ');
        let kind = parts.next().unwrap();
        let pre = parts.next().unwrap();
        let nt = parts.next().unwrap();
        let bytes = unhex(parts.next().unwrap_or(""));
        meter::reset();
        let out = catch_unwind(AssertUnwindSafe(|| run(kind, &bytes, nt == "0")))
            .unwrap_or_else(|_| Outcome::new("panic"));
        let mut s = String::from("{\"k\":[");
        let shown = if kind == "stable" { "module" } else { kind };
        for (i, k) in shown.split('.').enumerate() {
            if i > 0 { s.push(','); }
            s.push_str(&format!("\"{}\"", k));
        }
        s.push_str(&format!("],\"pre\":{},\"nt\":{},\"b\":", pre, nt));
        nums(&mut s, &bytes.iter().map(|b| *b as u32).collect::<Vec<_>>());
        s.push_str(&format!(",\"r\":\"{}\",\"used\":{},\"e\":[{},{}],\"v\":{},\"a\":{},\"t\":",
            out.result, out.used, out.error.0, out.error.1, out.valid, meter::kilobytes()));
        lists(&mut s, &out.trace);
        s.push_str(",\"x\":");
        lists(&mut s, &out.ext);
        s.push_str(",\"m\":");
        let text = if texts { out.text.to_lowercase() } else { String::new() };
        nums(&mut s, &text.bytes().map(u32::from).collect::<Vec<_>>());
        s.push_str("}\n");
        w.write_all(s.as_bytes()).unwrap();
        if flush { w.flush().unwrap(); }
    }
}

/// Prints the modules in the given files, each followed by a line with a single NUL.
fn show(files: &[std::ffi::OsString]) {
    for f in files {
        let bytes = std::fs::read(f).unwrap();
        if let Ok(m) = bytes.iter().copied().parse::<module::Module>() {
            println!("{:#?}", m);
        }
        println!("\0");
    }
}

fn main() {
    let args: Vec<_> = std::env::args_os().skip(1).collect();
    if !args.is_empty() {
        return show(&args);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let stack = std::env::var("RECORD_STACK_MB").ok().and_then(|s| s.parse().ok()).unwrap_or(512usize);
    std::thread::Builder::new().stack_size(stack << 20).spawn(serve).unwrap().join().unwrap();
}
