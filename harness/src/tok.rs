//! Flattens what the library returned into the elements of a trace: lists of small numbers, in the
//! order in which the binary format has them.

use whasm::binary::{Byte, Consume, Sized, UnwrappingVec, CompactVec, WasmBinaryParseProxy};
use whasm::structure::{idx, instr, instr::Instr, module, ty};
use whasm::validation::module::result::External;

pub type Trace = Vec<Vec<u32>>;

pub trait Tok {
    fn tok(self, out: &mut Trace);
}

pub fn le<B: AsRef<[u8]>>(tag: u32, bytes: B) -> Vec<u32> {
    let mut v = vec![tag];
    v.extend(bytes.as_ref().iter().map(|b| *b as u32));
    v
}

macro_rules! ints {
    ($($t:ty),*) => { $( impl Tok for $t {
        fn tok(self, out: &mut Trace) { out.push(le(303, self.to_le_bytes())); }
    } )* };
}
ints!(u8, u16, u32, u64, i8, i16, i32, i64);

impl Tok for f32 {
    fn tok(self, out: &mut Trace) { out.push(le(303, self.to_bits().to_le_bytes())); }
}
impl Tok for f64 {
    fn tok(self, out: &mut Trace) { out.push(le(303, self.to_bits().to_le_bytes())); }
}
impl Tok for Byte {
    fn tok(self, out: &mut Trace) { out.push(vec![300, self.0 as u32]); }
}
impl Tok for String {
    fn tok(self, out: &mut Trace) { out.push(le(302, self.as_bytes())); }
}
impl Tok for Consume {
    fn tok(self, out: &mut Trace) { out.push(le(304, (self.count as u32).to_le_bytes())); }
}
impl<T: Tok> Tok for Vec<T> {
    fn tok(self, out: &mut Trace) {
        let n = self.len() as u32;
        for x in self { x.tok(out); }
        out.push(le(301, n.to_le_bytes()));
    }
}
impl<T: Tok + whasm::binary::WasmBinaryParse> Tok for Sized<T> {
    fn tok(self, out: &mut Trace) { self.unwrap().tok(out) }
}
impl<T: Tok + Copy + whasm::binary::WasmBinaryParse> Tok for CompactVec<T> {
    fn tok(self, out: &mut Trace) { self.unwrap().tok(out) }
}
impl Tok for UnwrappingVec<Byte> {
    fn tok(self, out: &mut Trace) {
        self.unwrap().into_iter().map(Byte).collect::<Vec<_>>().tok(out)
    }
}
impl<T: Tok + whasm::binary::WasmBinaryParse> Tok for UnwrappingVec<Sized<T>> {
    fn tok(self, out: &mut Trace) { self.unwrap().tok(out) }
}
macro_rules! arrays {
    ($($n:literal),*) => { $( impl<T: Tok> Tok for [T; $n] {
        fn tok(self, out: &mut Trace) {
            for x in Vec::from(Box::new(self) as Box<[T]>) { x.tok(out); }
        }
    } )* };
}
arrays!(0, 1, 2, 3, 4, 5, 6, 7, 8);

pub fn val(t: &ty::Val) -> u32 {
    match t {
        ty::Val::I32 => 127,
        ty::Val::I64 => 126,
        ty::Val::F32 => 125,
        ty::Val::F64 => 124,
    }
}
pub fn mutability(m: &ty::Mut) -> u32 {
    match m {
        ty::Mut::Const => 0,
        ty::Mut::Var => 1,
    }
}
pub fn elem(e: &ty::Elem) -> u32 {
    match e {
        ty::Elem::FuncRef => 112,
    }
}
pub fn limits(tag: &[u32], l: &ty::Limits) -> Vec<u32> {
    let mut v = tag.to_vec();
    v.push(l.max.is_some() as u32);
    v.extend(le(0, l.min.to_le_bytes()).drain(1..));
    if let Some(max) = l.max {
        v.extend(le(0, max.to_le_bytes()).drain(1..));
    }
    v
}
fn vals(tag: u32, ts: &[ty::Val]) -> Vec<u32> {
    let mut v = vec![tag];
    v.extend(ts.iter().map(val));
    v
}
fn index(out: &mut Trace, i: u32) { out.push(le(303, i.to_le_bytes())); }
fn byte(out: &mut Trace, b: u32) { out.push(vec![300, b]); }

impl Tok for ty::Val { fn tok(self, out: &mut Trace) { byte(out, val(&self)) } }
impl Tok for ty::Mut { fn tok(self, out: &mut Trace) { byte(out, mutability(&self)) } }
impl Tok for ty::Elem { fn tok(self, out: &mut Trace) { byte(out, elem(&self)) } }
impl Tok for ty::RetVal { fn tok(self, out: &mut Trace) { byte(out, block(&self)) } }
impl Tok for ty::Limits { fn tok(self, out: &mut Trace) { out.push(limits(&[305], &self)) } }
impl Tok for ty::Func {
    fn tok(self, out: &mut Trace) {
        byte(out, 96);
        out.push(vals(306, &self.params));
        out.push(vals(306, &self.results));
    }
}
impl Tok for ty::Table {
    fn tok(self, out: &mut Trace) {
        byte(out, elem(&self.elem));
        out.push(limits(&[305], &self.lim));
    }
}
impl Tok for ty::Mem { fn tok(self, out: &mut Trace) { out.push(limits(&[305], &self.lim)) } }
impl Tok for ty::Global {
    fn tok(self, out: &mut Trace) {
        byte(out, val(&self.val));
        byte(out, mutability(&self.mt));
    }
}
impl Tok for module::Table { fn tok(self, out: &mut Trace) { self.ty.tok(out) } }
impl Tok for module::Mem { fn tok(self, out: &mut Trace) { self.ty.tok(out) } }
impl Tok for module::Global {
    fn tok(self, out: &mut Trace) {
        self.ty.tok(out);
        self.init.tok(out);
    }
}
impl Tok for module::Import {
    fn tok(self, out: &mut Trace) {
        self.module.tok(out);
        self.name.tok(out);
        match self.desc {
            module::desc::Import::Func(i) => { byte(out, 0); index(out, i.0) },
            module::desc::Import::Table(t) => { byte(out, 1); t.tok(out) },
            module::desc::Import::Mem(t) => { byte(out, 2); t.tok(out) },
            module::desc::Import::Global(t) => { byte(out, 3); t.tok(out) },
        }
    }
}
impl Tok for module::Export {
    fn tok(self, out: &mut Trace) {
        self.name.tok(out);
        match self.desc {
            module::desc::Export::Func(i) => { byte(out, 0); index(out, i.0) },
            module::desc::Export::Table(i) => { byte(out, 1); index(out, i.0) },
            module::desc::Export::Mem(i) => { byte(out, 2); index(out, i.0) },
            module::desc::Export::Global(i) => { byte(out, 3); index(out, i.0) },
        }
    }
}
impl Tok for module::Start { fn tok(self, out: &mut Trace) { index(out, self.func.0) } }
impl Tok for module::Elem {
    fn tok(self, out: &mut Trace) {
        index(out, self.table.0);
        self.offset.tok(out);
        let n = self.init.len() as u32;
        for idx::Func(i) in self.init { index(out, i); }
        out.push(le(301, n.to_le_bytes()));
    }
}
impl Tok for module::Data {
    fn tok(self, out: &mut Trace) {
        index(out, self.mem.0);
        self.offset.tok(out);
        out.push(le(307, &self.init));
    }
}
impl Tok for module::Func {
    fn tok(self, out: &mut Trace) {
        let mut runs: Vec<(u32, u32)> = vec![];
        for t in self.locals.iter().map(val) {
            match runs.last_mut() {
                Some((u, n)) if *u == t => *n += 1,
                _ => runs.push((t, 1)),
            }
        }
        let mut v = vec![308];
        for (t, n) in runs { v.extend(le(t, n.to_le_bytes())); }
        out.push(v);
        self.body.tok(out);
    }
}

fn section<T: Tok>(out: &mut Trace, id: u32, list: Vec<T>) {
    out.push(le(100 + id, (list.len() as u32).to_le_bytes()));
    for x in list { x.tok(out); }
}
struct Decl(u32);
impl Tok for Decl { fn tok(self, out: &mut Trace) { index(out, self.0) } }

impl Tok for module::Module {
    fn tok(self, out: &mut Trace) {
        section(out, 1, self.types);
        section(out, 2, self.imports);
        section(out, 3, self.funcs.iter().map(|f| Decl(f.ty.0)).collect());
        section(out, 4, self.tables);
        section(out, 5, self.mems);
        section(out, 6, self.globals);
        section(out, 7, self.exports);
        section(out, 8, self.start.into_iter().collect::<Vec<_>>());
        section(out, 9, self.elem);
        section(out, 10, self.funcs);
        section(out, 11, self.data);
    }
}

fn block(r: &ty::RetVal) -> u32 {
    match &r.0[..] {
        [] => 64,
        [t] => val(t),
        _ => 999,
    }
}

impl Tok for instr::ConstExpr {
    fn tok(self, out: &mut Trace) { instr::Expr(self.0).tok(out) }
}
impl Tok for instr::Expr {
    fn tok(self, out: &mut Trace) {
        for i in self.0 { i.tok(out); }
        out.push(vec![11]);
    }
}
impl Tok for Instr {
    fn tok(self, out: &mut Trace) {
        match self {
            Instr::Block(r, e) => { out.push(vec![2, block(&r)]); e.tok(out) },
            Instr::Loop(r, e) => { out.push(vec![3, block(&r)]); e.tok(out) },
            Instr::If(r, a, b) => {
                out.push(vec![4, block(&r)]);
                for i in a.0 { i.tok(out); }
                out.push(vec![5]);
                b.tok(out);
            },
            other => out.push(plain(&other)),
        }
    }
}

fn idx1(op: u32, a: u32) -> Vec<u32> { le(op, a.to_le_bytes()) }
fn idx2(op: u32, a: u32, b: u32) -> Vec<u32> {
    let mut v = idx1(op, a);
    v.extend(idx1(0, b).drain(1..));
    v
}

fn plain(i: &Instr) -> Vec<u32> {
    use Instr::*;
    match i {
        Block(..) | Loop(..) | If(..) => vec![999],
        BrTable(ls, d) => {
            let mut v = vec![0x0E];
            for l in ls.iter().chain(std::iter::once(d)) { v.extend(idx1(0, l.0).drain(1..)); }
            v
        },
        Br(l) => idx1(0x0C, l.0), BrIf(l) => idx1(0x0D, l.0),
        Call(f) => idx1(0x10, f.0), CallIndirect(t, tb) => idx2(0x11, t.0, tb.0),
        LocalGet(l) => idx1(0x20, l.0), LocalSet(l) => idx1(0x21, l.0), LocalTee(l) => idx1(0x22, l.0),
        GlobalGet(g) => idx1(0x23, g.0), GlobalSet(g) => idx1(0x24, g.0),
        I32Load(a, o) => idx2(0x28, *a, *o), I64Load(a, o) => idx2(0x29, *a, *o),
        F32Load(a, o) => idx2(0x2A, *a, *o), F64Load(a, o) => idx2(0x2B, *a, *o),
        I32Load8S(a, o) => idx2(0x2C, *a, *o), I32Load8U(a, o) => idx2(0x2D, *a, *o),
        I32Load16S(a, o) => idx2(0x2E, *a, *o), I32Load16U(a, o) => idx2(0x2F, *a, *o),
        I64Load8S(a, o) => idx2(0x30, *a, *o), I64Load8U(a, o) => idx2(0x31, *a, *o),
        I64Load16S(a, o) => idx2(0x32, *a, *o), I64Load16U(a, o) => idx2(0x33, *a, *o),
        I64Load32S(a, o) => idx2(0x34, *a, *o), I64Load32U(a, o) => idx2(0x35, *a, *o),
        I32Store(a, o) => idx2(0x36, *a, *o), I64Store(a, o) => idx2(0x37, *a, *o),
        F32Store(a, o) => idx2(0x38, *a, *o), F64Store(a, o) => idx2(0x39, *a, *o),
        I32Store8(a, o) => idx2(0x3A, *a, *o), I32Store16(a, o) => idx2(0x3B, *a, *o),
        I64Store8(a, o) => idx2(0x3C, *a, *o), I64Store16(a, o) => idx2(0x3D, *a, *o),
        I64Store32(a, o) => idx2(0x3E, *a, *o),
        MemSize(m) => idx1(0x3F, m.0), MemGrow(m) => idx1(0x40, m.0),
        ConstI32(c) => le(0x41, c.to_le_bytes()), ConstI64(c) => le(0x42, c.to_le_bytes()),
        ConstF32(c) => le(0x43, c.to_bits().to_le_bytes()),
        ConstF64(c) => le(0x44, c.to_bits().to_le_bytes()),
        Unreachable => vec![0x00], Nop => vec![0x01], Else => vec![0x05], End => vec![0x0B],
        Return => vec![0x0F], Drop => vec![0x1A], Select => vec![0x1B],
        I32Eqz => vec![0x45], I32Eq => vec![0x46], I32Ne => vec![0x47], I32LtS => vec![0x48],
        I32LtU => vec![0x49], I32GtS => vec![0x4A], I32GtU => vec![0x4B], I32LeS => vec![0x4C],
        I32LeU => vec![0x4D], I32GeS => vec![0x4E], I32GeU => vec![0x4F],
        I64Eqz => vec![0x50], I64Eq => vec![0x51], I64Ne => vec![0x52], I64LtS => vec![0x53],
        I64LtU => vec![0x54], I64GtS => vec![0x55], I64GtU => vec![0x56], I64LeS => vec![0x57],
        I64LeU => vec![0x58], I64GeS => vec![0x59], I64GeU => vec![0x5A],
        F32Eq => vec![0x5B], F32Ne => vec![0x5C], F32Lt => vec![0x5D], F32Gt => vec![0x5E],
        F32Le => vec![0x5F], F32Ge => vec![0x60],
        F64Eq => vec![0x61], F64Ne => vec![0x62], F64Lt => vec![0x63], F64Gt => vec![0x64],
        F64Le => vec![0x65], F64Ge => vec![0x66],
        I32Clz => vec![0x67], I32Ctz => vec![0x68], I32Popcnt => vec![0x69], I32Add => vec![0x6A],
        I32Sub => vec![0x6B], I32Mul => vec![0x6C], I32DivS => vec![0x6D], I32DivU => vec![0x6E],
        I32RemS => vec![0x6F], I32RemU => vec![0x70], I32And => vec![0x71], I32Or => vec![0x72],
        I32Xor => vec![0x73], I32Shl => vec![0x74], I32ShrS => vec![0x75], I32ShrU => vec![0x76],
        I32Rotl => vec![0x77], I32Rotr => vec![0x78],
        I64Clz => vec![0x79], I64Ctz => vec![0x7A], I64Popcnt => vec![0x7B], I64Add => vec![0x7C],
        I64Sub => vec![0x7D], I64Mul => vec![0x7E], I64DivS => vec![0x7F], I64DivU => vec![0x80],
        I64RemS => vec![0x81], I64RemU => vec![0x82], I64And => vec![0x83], I64Or => vec![0x84],
        I64Xor => vec![0x85], I64Shl => vec![0x86], I64ShrS => vec![0x87], I64ShrU => vec![0x88],
        I64Rotl => vec![0x89], I64Rotr => vec![0x8A],
        F32Abs => vec![0x8B], F32Neg => vec![0x8C], F32Ceil => vec![0x8D], F32Floor => vec![0x8E],
        F32Trunc => vec![0x8F], F32Nearest => vec![0x90], F32Sqrt => vec![0x91], F32Add => vec![0x92],
        F32Sub => vec![0x93], F32Mul => vec![0x94], F32Div => vec![0x95], F32Min => vec![0x96],
        F32Max => vec![0x97], F32Copysign => vec![0x98],
        F64Abs => vec![0x99], F64Neg => vec![0x9A], F64Ceil => vec![0x9B], F64Floor => vec![0x9C],
        F64Trunc => vec![0x9D], F64Nearest => vec![0x9E], F64Sqrt => vec![0x9F], F64Add => vec![0xA0],
        F64Sub => vec![0xA1], F64Mul => vec![0xA2], F64Div => vec![0xA3], F64Min => vec![0xA4],
        F64Max => vec![0xA5], F64Copysign => vec![0xA6],
        I32WrapI64 => vec![0xA7], I32TruncF32S => vec![0xA8], I32TruncF32U => vec![0xA9],
        I32TruncF64S => vec![0xAA], I32TruncF64U => vec![0xAB], I64ExtendI32S => vec![0xAC],
        I64ExtendI32U => vec![0xAD], I64TruncF32S => vec![0xAE], I64TruncF32U => vec![0xAF],
        I64TruncF64S => vec![0xB0], I64TruncF64U => vec![0xB1], F32ConvertI32S => vec![0xB2],
        F32ConvertI32U => vec![0xB3], F32ConvertI64S => vec![0xB4], F32ConvertI64U => vec![0xB5],
        F32DemoteF64 => vec![0xB6], F64ConvertI32S => vec![0xB7], F64ConvertI32U => vec![0xB8],
        F64ConvertI64S => vec![0xB9], F64ConvertI64U => vec![0xBA], F64PromoteF32 => vec![0xBB],
        I32ReinterpretF32 => vec![0xBC], I64ReinterpretF64 => vec![0xBD],
        F32ReinterpretI32 => vec![0xBE], F64ReinterpretI64 => vec![0xBF],
    }
}

pub fn external(x: &External) -> Vec<u32> {
    match x {
        External::Func(f) => {
            let mut v = vec![0, f.params.len() as u32];
            v.extend(f.params.iter().map(val));
            v.push(f.results.len() as u32);
            v.extend(f.results.iter().map(val));
            v
        },
        External::Table(t) => limits(&[1], &t.lim),
        External::Mem(t) => limits(&[2], &t.lim),
        External::Global(g) => vec![3, val(&g.val), mutability(&g.mt)],
    }
}
