"""Random modules. Valid by construction as far as the generator knows; mutated on request.

The generator is a source of inputs only. Its idea of validity is not used to judge anything.
"""

import random

from wasm import *
import words

# numbers that the library's sources mention
SMALL = words.near(0, 2**31 - 1) or [0]
FEW = words.near(0, 1000) or [0]

# what a number is taken for when its upper bits get lost
LOST = [2**7, 2**8, 2**14, 2**15, 2**16, 2**24, 2**31]


class Body:
    """Generates an instruction sequence for a function."""

    def __init__(self, rng, m, params, results, runs, size):
        self.r, self.m, self.ret = rng, m, list(results)
        self.locals = list(params)
        for n, t in runs:
            self.locals += [t] * n
        self.code = []                                     # list of encoded instructions
        self.stack = []
        self.frames = [dict(op=0, lab=self.ret, out=self.ret, h=0, dead=False)]
        self.size = size

    def emit(self, *parts):
        self.code.append(b''.join(p if isinstance(p, bytes) else bytes([p]) for p in parts))

    def avail(self):
        return self.stack[self.frames[-1]['h']:]

    def dead(self):
        return self.frames[-1]['dead']

    def can(self, ts):
        a = self.avail()
        if self.dead():
            k = min(len(a), len(ts))
            return k == 0 or all(x is None or x == y for x, y in zip(a[len(a) - k:], ts[len(ts) - k:]))
        return len(a) >= len(ts) and (not ts or a[-len(ts):] == list(ts))

    def pop(self, ts):
        n = min(len(self.avail()), len(ts))
        if n:
            del self.stack[-n:]

    def push(self, ts):
        self.stack += list(ts)

    def need(self, ts):
        """Makes ts the top of the stack."""
        if self.can(ts) and self.r.random() < 0.7:
            return
        for t in ts:
            self.value(t)

    def value(self, t):
        """Pushes a value of type t."""
        r = self.r
        opts = [0, 0]
        ls = [i for i, x in enumerate(self.locals) if x == t]
        gs = [i for i, (x, _) in enumerate(self.m.globals) if x == t]
        if ls:
            opts += [1, 1]
        if gs:
            opts.append(2)
        if self.m.nmem and t:
            opts.append(3)
        k = r.choice(opts)
        if k == 0:
            n = r.choice([0, 1, -1, 63, 64, -64, -65, 127, 128, r.getrandbits(31), -r.getrandbits(31), r.choice(SMALL)])
            if t == I64 and r.random() < 0.3:
                n = r.choice([r.getrandbits(63), -r.getrandbits(63), 2**63 - 1, -2**63])
            if t in (F32, F64):
                n = r.getrandbits(64)
            self.emit(const(t, n))
        elif k == 1:
            self.emit(0x20, u(r.choice(ls)))
        elif k == 2:
            self.emit(0x23, u(r.choice(gs)))
        else:
            op, al = r.choice([(o, a) for o, (x, a) in LOADS.items() if x == t])
            self.value(I32)
            self.stack.pop()
            self.emit(op, u(r.randint(0, al)), u(r.choice([0, 1, 127, 128, 4096, 2**32 - 1, r.choice(SMALL)])))
        self.push([t])

    def enter(self, op):
        r = self.r
        bt = r.choice([VOID, VOID, I32, I64, F32, F64])
        out = [] if bt == VOID else [bt]
        if op == 4:
            self.need([I32])
            self.pop([I32])
        self.emit(op, bt)
        self.frames.append(dict(op=op, lab=[] if op == 3 else out, out=out, h=len(self.stack), dead=False))

    def settle(self, out):
        """Leaves exactly `out` in the innermost construct."""
        a = self.avail()
        if self.dead() and self.r.random() < 0.5 and self.can(out) and len(a) <= len(out):
            self.pop(out)
            return
        if a == out:
            self.pop(out)
            return
        for _ in range(len(a)):
            self.emit(0x1A)
            self.stack.pop()
        for t in out:
            self.value(t)
        self.pop(out)

    def leave(self):
        f = self.frames[-1]
        self.settle(f['out'])
        if f['op'] == 4 and (f['out'] or self.r.random() < 0.6):
            self.emit(5)
            f['op'], f['dead'] = 5, False
            return
        self.emit(0x0B)
        self.frames.pop()
        self.push(f['out'])

    def kill(self):
        f = self.frames[-1]
        del self.stack[f['h']:]
        f['dead'] = True

    def step(self):
        r, m = self.r, self.m
        k = r.random()
        if k < 0.34:
            op = r.choice(list(SIG))
            p, q = SIG[op]
            self.need(p)
            self.pop(p)
            self.emit(op)
            self.push(q)
        elif k < 0.46:
            self.value(r.choice(TYPES))
        elif k < 0.58 and self.locals:
            i = r.randrange(len(self.locals))
            t = self.locals[i]
            op = r.choice([0x21, 0x22])
            self.need([t])
            self.pop([t])
            self.emit(op, u(i))
            if op == 0x22:
                self.push([t])
        elif k < 0.62 and any(mt for _, mt in m.globals):
            i = r.choice([j for j, (_, mt) in enumerate(m.globals) if mt])
            self.need([m.globals[i][0]])
            self.pop([m.globals[i][0]])
            self.emit(0x24, u(i))
        elif k < 0.68 and m.nmem:
            o = r.randrange(3)
            if o == 0:
                op, (t, al) = r.choice(list(STORES.items()))
                self.need([I32, t])
                self.pop([I32, t])
                self.emit(op, u(r.randint(0, al)), u(r.choice([r.randrange(300), r.choice(SMALL)])))
            elif o == 1:
                self.emit(0x3F, 0)
                self.push([I32])
            else:
                self.need([I32])
                self.pop([I32])
                self.emit(0x40, 0)
                self.push([I32])
        elif k < 0.75 and len(self.frames) < 8:
            self.enter(r.choice([2, 3, 4, 4]))
        elif k < 0.82:
            d = r.randrange(len(self.frames))
            lab = self.frames[-1 - d]['lab']
            o = r.randrange(4)
            if o == 0:
                self.need(lab)
                self.emit(0x0C, u(d))
                self.pop(lab)
                self.kill()
            elif o <= 2:
                self.need(lab + [I32])
                self.pop(lab + [I32])
                self.emit(0x0D, u(d))
                self.push(lab)
            else:
                same = [i for i in range(len(self.frames)) if self.frames[-1 - i]['lab'] == lab]
                self.need(lab + [I32])
                self.pop(lab + [I32])
                self.emit(0x0E, vec(u(r.choice(same)) for _ in range(r.randrange(5))), u(d))
                self.kill()
        elif k < 0.84:
            if r.random() < 0.5:
                self.emit(0)
            else:
                self.need(self.ret)
                self.emit(0x0F)
            self.kill()
        elif k < 0.90 and m.funcs:
            i = r.randrange(len(m.funcs))
            p, q = m.types[m.funcs[i]]
            self.need(p)
            self.pop(p)
            self.emit(0x10, u(i))
            self.push(q)
        elif k < 0.93 and m.ntab and m.types:
            i = r.randrange(len(m.types))
            p, q = m.types[i]
            self.need(p + [I32])
            self.pop(p + [I32])
            self.emit(0x11, u(i), 0)
            self.push(q)
        elif k < 0.95:
            t = r.choice(TYPES)
            self.need([t, t, I32])
            self.pop([t, t, I32])
            self.emit(0x1B)
            self.push([t])
        elif k < 0.97 and self.avail():
            self.emit(0x1A)
            self.stack.pop()
        elif len(self.frames) > 1:
            self.leave()
        else:
            self.emit(1)

    def run(self):
        for _ in range(self.size):
            self.step()
        while len(self.frames) > 1:
            self.leave()
        self.settle(self.ret)
        self.emit(0x0B)
        return self.code


class Module:
    """A random module; `parts` maps section ids to lists of encoded entries."""

    def __init__(self, rng, size=12, nfuncs=None, features=1.0):
        self.r = r = rng

        def some(p=0.6):
            return r.random() < p * features

        def lim(mx):
            a = min(mx, r.choice([0, 1, 2, r.randrange(mx + 1), r.choice(SMALL)]))
            return (a, r.randint(a, mx)) if r.random() < 0.5 else (a,)

        self.types = []
        for _ in range(r.randint(1, 6)):
            n = r.choice([0, 0, 1, 1, 2, 3, 4])
            self.types.append(([r.choice(TYPES) for _ in range(n)], [r.choice(TYPES)] if r.random() < 0.6 else []))
        self.funcs, self.globals, self.ntab, self.nmem = [], [], 0, 0
        self.names = set()
        imports = []
        for _ in range(r.choice([0, 0, 1, 2, 3, 5]) if some(0.9) else 0):
            k = r.randrange(4)
            mod, nm = self.name(False), self.name(False)
            if k == 0:
                i = r.randrange(len(self.types))
                imports.append(imp_func(mod, nm, i))
                self.funcs.append(i)
            elif k == 1 and not self.ntab:
                imports.append(imp_table(mod, nm, *lim(2**32 - 1)))
                self.ntab += 1
            elif k == 2 and not self.nmem:
                imports.append(imp_mem(mod, nm, *lim(65536)))
                self.nmem += 1
            elif k == 3:
                t, mt = r.choice(TYPES), r.randrange(2)
                imports.append(imp_global(mod, nm, t, mt))
                self.globals.append((t, mt))
        self.nimpf, self.nimpg = len(self.funcs), len(self.globals)
        nf = r.choice([0, 1, 1, 2, 3, 4]) if nfuncs is None else nfuncs
        decl = [r.randrange(len(self.types)) for _ in range(nf)]
        self.funcs += decl
        tables, mems = [], []
        if not self.ntab and some(0.5):
            tables.append(table(*lim(2**32 - 1)))
            self.ntab = 1
        if not self.nmem and some(0.6):
            mems.append(limits(*lim(65536)))
            self.nmem = 1
        globs = []
        for _ in range(r.choice([0, 0, 1, 2, 3]) if some(0.9) else 0):
            t, mt = r.choice(TYPES), r.randrange(2)
            src = [i for i in range(self.nimpg) if self.globals[i] == (t, 0)]
            init = b'\x23' + u(r.choice(src)) if src and r.random() < 0.5 else const(t, r.getrandbits(20))
            globs.append(globaltype(t, mt) + init + b'\x0b')
            self.globals.append((t, mt))
        exports = []
        for _ in range(r.choice([0, 0, 1, 2, 4]) if some(0.9) else 0):
            k = r.randrange(4)
            n = (len(self.funcs), self.ntab, self.nmem, len(self.globals))[k]
            if n:
                exports.append(export(self.name(), k, r.randrange(n)))
        plain = [i for i, f in enumerate(self.funcs) if self.types[f] == ([], [])]
        start = u(r.choice(plain)) if plain and some(0.5) else None
        elems = []
        for _ in range(r.choice([0, 1, 2]) if self.ntab and some(0.7) else 0):
            elems.append(u(0) + self.offset() + vec(u(r.randrange(len(self.funcs)))
                                                    for _ in range(r.randrange(4) if self.funcs else 0)))
        bodies, self.codes = [], []
        for f in decl:
            p, q = self.types[f]
            runs = [(r.choice([0, 1, 1, 2, 3, 130, r.choice(FEW)]) if r.random() < 0.9 else 0, r.choice(TYPES))
                    for _ in range(r.choice([0, 1, 2, 3]))]
            code = Body(r, self, p, q, runs, r.randint(0, size)).run()
            self.codes.append((runs, code))
            bodies.append(body(b''.join(code), runs))
        datas = []
        for _ in range(r.choice([0, 1, 2]) if self.nmem and some(0.7) else 0):
            datas.append(u(0) + self.offset() + name(r.getrandbits(8 * 5).to_bytes(5, 'little')[:r.randrange(6)]))
        self.parts = {1: [functype(p, q) for p, q in self.types], 2: imports, 3: [u(i) for i in decl],
                      4: tables, 5: mems, 6: globs, 7: exports, 9: elems, 10: bodies, 11: datas}
        self.start = start

    def name(self, unique=True):
        r = self.r
        while True:
            if r.random() < 0.05:
                n = r.choice(words.TEXTS)
                if not unique:
                    return n
                if n not in self.names:
                    self.names.add(n)
                    return n
            n = ''.join(r.choice(['a', 'b', 'Z', '0', ' ', 'é', '€', '😀', '\x00', '\x7f', '߿', '퟿', '',
                                  '￿', '\U00010000', '\U0010ffff']) for _ in range(r.choice([0, 1, 1, 2, 3, 4])))
            if not unique:
                return n
            if n not in self.names:
                self.names.add(n)
                return n

    def offset(self):
        r = self.r
        gs = [i for i, g in enumerate(self.globals) if g == (I32, 0)]
        if gs and r.random() < 0.4:
            return b'\x23' + u(r.choice(gs)) + b'\x0b'
        return const(I32, r.choice([0, 1, -1, 1000, 2**31 - 1, -2**31, r.choice(SMALL)])) + b'\x0b'

    def sections(self, keep_empty=0.15):
        out = []
        for i in range(1, 12):
            if i == 8:
                if self.start is not None:
                    out.append((8, self.start))
            elif self.parts[i] or self.r.random() < keep_empty:
                out.append((i, vec(self.parts[i])))
        return out

    def bytes(self, customs=0.1):
        out = MAGIC
        for i, c in self.sections():
            while self.r.random() < customs:
                out += self.custom()
            out += section(i, c)
        while self.r.random() < customs:
            out += self.custom()
        return out

    def custom(self):
        r = self.r
        return section(0, name(self.name(False)) + r.getrandbits(8 * 9).to_bytes(9, 'little')[:r.randrange(10)])


def mutate(rng, data, lo=8):
    """One small random change of the bytes."""
    d = bytearray(data)
    if len(d) <= lo:
        return bytes(d) + bytes([rng.randrange(256)])
    i = rng.randrange(lo, len(d))
    k = rng.randrange(8)
    if k == 0:
        d[i] = rng.randrange(256)
    elif k == 1:
        d[i] = (d[i] + rng.choice([-1, 1])) % 256
    elif k == 2:
        d[i] ^= 1 << rng.randrange(8)
    elif k == 3:
        del d[i]
    elif k == 4:
        d.insert(i, rng.choice([0, 1, 0x0B, 0x40, 0x7F, 0x80, 0xFF, rng.randrange(256)]))
    elif k == 5:
        del d[i:]
    elif k == 6:
        j = rng.randrange(lo, len(d))
        d[i], d[j] = d[j], d[i]
    else:
        d[i] = rng.choice([0, 1, 0x0B, 0x05, 0x40, 0x7F, 0x7E, 0x7D, 0x7C, 0x80, 0xFF, 0x60, 0x70])
    return bytes(d)


INDEXED = (0x0C, 0x0D, 0x10, 0x11, 0x20, 0x21, 0x22, 0x23, 0x24, 0x3F, 0x40) + tuple(range(0x28, 0x3F))


def mutate_code(rng, code):
    """One change of an instruction sequence; it stays a sequence of whole instructions."""
    c = list(code)
    i = rng.randrange(len(c))
    k = rng.randrange(8)
    if k == 0 and len(c) > 1:
        del c[i]
    elif k == 1:
        c.insert(i, c[rng.randrange(len(c))])
    elif k == 2:
        j = rng.randrange(len(c))
        c[i], c[j] = c[j], c[i]
    elif k == 3:
        c[i] = bytes([rng.choice(list(SIG))])
    elif k == 4:
        c.insert(i, rng.choice([b'\x00', b'\x1a', b'\x1b', b'\x0f', b'\x0c\x00', b'\x0d\x01', b'\x41\x00',
                                b'\x42\x00', b'\x0b', b'\x05', b'\x02\x40', b'\x03\x7f', b'\x04\x7e']))
    elif k == 5 and len(c[i]) == 2 and c[i][0] not in (2, 3, 4):
        c[i] = c[i][:1] + bytes([(c[i][1] + rng.choice([-1, 1])) % 128])
    elif k == 6:
        at = [j for j, x in enumerate(c) if x[0] in INDEXED and x[1] < 128]
        if at:
            i = rng.choice(at)
            c[i] = c[i][:1] + u(c[i][1] + rng.choice(LOST)) + c[i][2:]
    else:
        c[i] = rng.choice([const(t) for t in TYPES])
    return c
