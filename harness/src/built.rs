//! Builds modules in memory from their public parts, without the library's decoder for modules and
//! expressions. The input is a module in the binary format, in which code may also have what no
//! binary has:
//!
//! - an `else` (05) anywhere is an `Instr::Else` unless it ends the first arm of an `if`;
//! - 06 is an `Instr::End` among other instructions;
//! - a block type 41 is followed by a list of result types.

use whasm::binary::{Byte, CompactVec, UnwrappingVec, WasmBinary, WasmBinaryParseProxy};
use whasm::structure::instr::{ConstExpr, Expr, Instr};
use whasm::structure::{idx, module, ty};

type Bytes<'a> = std::iter::Peekable<std::vec::IntoIter<u8>>;

fn get<T: whasm::binary::WasmBinaryParse>(b: &mut Bytes) -> T {
    b.parse().ok().expect("input")
}

fn block_type(b: &mut Bytes) -> ty::RetVal {
    if b.peek() == Some(&0x41) {
        b.next();
        return ty::RetVal(get(b));
    }
    get(b)
}

/// Instructions up to and without the terminator; reports whether that was an `else`.
fn instrs(b: &mut Bytes, arm: bool) -> (Vec<Instr>, bool) {
    let mut list = vec![];
    loop {
        match *b.peek().expect("input") {
            0x0B => { b.next(); return (list, false); },
            0x05 => {
                b.next();
                if arm { return (list, true); }
                list.push(Instr::Else);
            },
            0x06 => { b.next(); list.push(Instr::End); },
            op @ 0x02..=0x04 => {
                b.next();
                let t = block_type(b);
                let (first, more) = instrs(b, op == 0x04);
                let second = if more { instrs(b, false).0 } else { vec![] };
                list.push(match op {
                    0x02 => Instr::Block(t, Expr(first)),
                    0x03 => Instr::Loop(t, Expr(first)),
                    _ => Instr::If(t, Expr(first), Expr(second)),
                });
            },
            _ => list.push(get(b)),
        }
    }
}

fn constant(b: &mut Bytes) -> ConstExpr {
    ConstExpr(instrs(b, false).0)
}

fn list<T, F: Fn(&mut Bytes) -> T>(b: &mut Bytes, f: F) -> Vec<T> {
    let n: u32 = get(b);
    (0..n).map(|_| f(b)).collect()
}

pub fn module(bytes: &[u8]) -> module::Module {
    let mut m = module::Module::default();
    let mut types: Vec<idx::Type> = vec![];
    let mut b = bytes[8..].to_vec().into_iter().peekable();
    while let Some(id) = b.next() {
        let size: u32 = get(&mut b);
        let b = &mut b;
        match id {
            0 => (0..size).for_each(|_| { b.next(); }),
            1 => m.types = get(b),
            2 => m.imports = get(b),
            3 => types = get(b),
            4 => m.tables = get(b),
            5 => m.mems = get(b),
            6 => m.globals = list(b, |b| module::Global { ty: get(b), init: constant(b) }),
            7 => m.exports = get(b),
            8 => m.start = Some(get(b)),
            9 => m.elem = list(b, |b| module::Elem { table: get(b), offset: constant(b), init: get(b) }),
            10 => {
                let bodies = list(b, |b| {
                    let _size: u32 = get(b);
                    (get::<CompactVec<ty::Val>>(b).unwrap(), Expr(instrs(b, false).0))
                });
                m.funcs = types.iter().copied().zip(bodies)
                    .map(|(ty, (locals, body))| module::Func { ty, locals, body }).collect();
            },
            11 => m.data = list(b, |b| {
                module::Data { mem: get(b), offset: constant(b), init: get::<UnwrappingVec<Byte>>(b).unwrap() }
            }),
            _ => panic!("input"),
        }
    }
    m
}
