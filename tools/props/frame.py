"""C07-C12 and C25: modules as sequences of bytes."""

import os

import core
from core import Case
from wasm import *
import gen
import words
from . import scale
from .around import surroundings
from .prim import content, off, sized_module, SIZED, VECS, text

VOIDF = functype([], [])


# ----------------------------------------------------------------------------------- preamble, order

def filler(rng, i, full):
    """Content for a section; together they make a valid module when `full`."""
    if i == 0:
        return name(text(rng)) + rng.randbytes(rng.randrange(5))
    if i == 8:
        return u(0)
    if not full:
        return vec([])
    return {1: vec([VOIDF]), 2: vec([imp_func('m', 'f', 0)]), 3: vec([u(0)]), 4: vec([table(1)]),
            5: vec([limits(1)]), 6: vec([globaltype(I32, 0) + const(I32, 3) + b'\x0b']), 7: vec([]),
            9: vec([]), 10: vec([body(b'\x0b')]), 11: vec([])}.get(i, vec([]))


def c07(run):
    rng, out = run.rng, []
    # preamble
    for n in range(9):
        out.append(Case('module', MAGIC[:n]))
        out.append(Case('module', MAGIC[:n] + b'\0' * (8 - n)))
    for i in range(8):
        for b in range(256):
            d = bytearray(MAGIC)
            d[i] = b
            out.append(Case('module', d))
            if b % 16 == 0:
                out.append(Case('module', bytes(d) + section(1, vec([VOIDF]))))
    for _ in range(200):
        out.append(Case('module', rng.randbytes(rng.randrange(12))))
        d = bytearray(MAGIC)
        for _ in range(2):
            d[rng.randrange(8)] = rng.choice([0, 1, 0x61, 0x73, 0x6D, 0xFF])
        out.append(Case('module', d))
    for v in (b'\x01\0\0\0', b'\0\0\0\x01', b'\x02\0\0\0', b'\x0d\0\0\0', b'\x01\0\x01\0', b'\x81\0\0\0'):
        for mg in (b'\0asm', b'msa\0', b'\0ASM', b'\0wasm'[:4], b'asm\0', b'\0as\x6c'):
            out.append(Case('module', mg + v))
    # every id after every sequence of ids
    for e in run.emit('GenSections'):
        for full in ((True, False) if run.thorough or e['ok'] or rng.random() < 0.4 else (rng.random() < 0.5,)):
            d = MAGIC
            for i in e['p']:
                d += section(i, filler(rng, i, full))
            out.append(Case('module', d))
    # all subsets of the sections, and pairs out of order
    for mask in (range(2048) if run.thorough else rng.sample(range(2048), 300)):
        ids = [i for i in range(1, 12) if mask >> (i - 1) & 1]
        for full in (False, True):
            d = MAGIC + b''.join(section(i, filler(rng, i, full)) for i in ids)
            out.append(Case('module', d))
    for a in range(12):
        for b in range(12):
            for c in range(12) if run.thorough else rng.sample(range(12), 3):
                d = MAGIC + b''.join(section(i, filler(rng, i, False)) for i in (a, b, c))
                out.append(Case('module', d))
    # a section id read as anything but a byte
    for i in range(12):
        c = filler(rng, i, False)
        for idb in (bytes([i | 0x80, 0]), bytes([i | 0x80]), bytes([i | 0x40])):
            out.append(Case('module', MAGIC + idb + sized(c)))
        out.append(Case('module', MAGIC + bytes([i])))
        out.append(Case('module', MAGIC + bytes([i, 0])))
        out.append(Case('module', MAGIC + bytes([i, 0x80])))
    # custom sections: contents, and no influence wherever they are
    for c in (b'', b'\0', b'\x01', b'\x01a', b'\x02a', b'\0' + b'\xff' * 9, name('name') + b'\x01\x02\x00\x00', b'\x80\x00',
              b'\x03\xe2\x82\xac\x05', b'\x02\xe2\x82', b'\x01\xff', name('x' * 200) + b'y' * 200):
        for before in (b'', section(1, vec([VOIDF]))):
            for after in (b'', section(1, vec([VOIDF])), section(5, vec([limits(1)])), section(0, b''), b'\0'):
                out.append(Case('module', MAGIC + before + section(0, c) + after))
    for _ in range(2500 if run.thorough else 350):
        m = gen.Module(rng, size=4)
        secs = m.sections()
        n = len(secs)
        for gap in range(n + 1):
            d = MAGIC
            for j in range(n + 1):
                if j == gap:
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        d += section(0, filler(rng, 0, True))
                if j < n:
                    d += section(*secs[j])
            out.append(Case('module', d))
        # a section of something else inside a custom one
        d = MAGIC
        for i, c in secs:
            d += section(i, c) + section(0, name('n') + section(i, c))
        out.append(Case('module', d))
        if n > 1:                                    # two sections swapped, one repeated
            i, j = rng.sample(range(n), 2)
            t = list(secs)
            t[i], t[j] = t[j], t[i]
            out.append(Case('module', MAGIC + b''.join(section(*x) for x in t)))
            t = list(secs)
            t.insert(rng.randrange(n + 1), secs[i])
            out.append(Case('module', MAGIC + b''.join(section(*x) for x in t)))
        out.append(Case('module', m.bytes(customs=0.4) + rng.choice([b'', b'\0', b'\x0c\0', rng.randbytes(1), rng.randbytes(3)])))
    for t in words.TEXTS:
        for before in (b'', section(1, vec([VOIDF]))):
            out.append(Case('module', MAGIC + before + section(0, name(t) + b'x') + section(5, vec([limits(1)]))))
    for n in [127, 128, 255, 256, 300] + words.near(4, 1000):               # many custom sections
        out.append(Case('module', MAGIC + section(0, name('a')) * n + section(1, vec([VOIDF]))))
    run.check('framing', out, kinds=False)


# ------------------------------------------------------------------------------------ function pairs

def c08(run):
    rng, out = run.rng, []
    sigs = [([], []), ([I32], [I32]), ([I64], [I64]), ([F32, F64], [F64]), ([], [F32])]

    def good(t, k):
        """A body of type t that differs from those of other k."""
        p, q = sigs[t]
        code = const(I32, k) + b'\x1a'
        for x in q:
            code += const(x, k)
        return body(code + b'\x0b', [(k % 4, TYPES[k % 4])])

    def mod(decl, bodies, fsec=True, csec=True, customs=()):
        d = MAGIC + section(1, vec(functype(*x) for x in sigs))
        if fsec:
            d += section(3, vec(u(i) for i in decl))
        for c in customs:
            d += section(0, c)
        if csec:
            d += section(10, vec(bodies))
        return d
    for nd in range(6):
        for nb in range(6):
            for fsec in (True, False):
                for csec in (True, False):
                    for _ in range(3):
                        decl = [rng.randrange(5) for _ in range(nd if fsec else 0)]
                        bodies = [good(decl[k] if k < len(decl) else rng.randrange(5), k) for k in range(nb if csec else 0)]
                        out.append(Case('module', mod(decl, bodies, fsec, csec, [name('x')] * rng.randrange(2))))
    import itertools
    for n in (1, 2, 3):                                # every assignment of types, bodies right and exchanged
        for decl in itertools.product(range(5), repeat=n):
            bodies = [good(t, k) for k, t in enumerate(decl)]
            for perm in itertools.permutations(range(n)):
                out.append(Case('module', mod(decl, [bodies[i] for i in perm])))
    for n in [126, 127, 128, 129, 255, 256, 257, 300] + ([1000] if run.thorough else []) + words.near(4, 400):
        decl = [rng.randrange(5) for _ in range(n)]
        bodies = [good(t, k) for k, t in enumerate(decl)]
        for b in (bodies, bodies[:-1], bodies + bodies[:1], bodies[1:] + bodies[:1]):
            out.append(Case('module', mod(decl, b)))
    for _ in range(20000 if run.thorough else 3000):
        m = gen.Module(rng, size=3, nfuncs=rng.choice([0, 1, 2, 3, 5, 8]), features=0.5)
        k = rng.randrange(5)
        f, c = m.parts[3], m.parts[10]
        if k == 1 and f:
            del f[rng.randrange(len(f))]
        elif k == 2 and c:
            del c[rng.randrange(len(c))]
        elif k == 3:
            f.append(u(rng.randrange(len(m.types))))
        elif k == 4 and len(c) > 1:
            i, j = rng.sample(range(len(c)), 2)
            c[i], c[j] = c[j], c[i]
        out.append(Case('module', m.bytes(customs=0.2)))
        out.append(Case('module', scale.repeats(rng, m).bytes(customs=0)))
    run.check('pairing', out)
    run.check('large modules', scale.large(run, (), (100, 300)))
    surroundings(run, 1500)


# ---------------------------------------------------------------------------------------- opcodes

IDX = [0x0C, 0x0D, 0x10, 0x20, 0x21, 0x22, 0x23, 0x24, 0x3F, 0x40]
MEM = list(LOADS) + list(STORES)
EDGE32 = [0, 1, 2, 3, 63, 64, 65, 126, 127, 128, 129, 255, 256, 16383, 16384, 2**21 - 1, 2**21, 2**28 - 1, 2**28,
          2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]
EDGE32 = sorted(set(EDGE32 + words.near(4, 2**32 - 1)))
EDGES64 = [0, 1, -1, 2, -2, 63, 64, -64, -65, 127, 128, -128, -129, 8191, 8192, -8192, -8193, 2**20 - 1, 2**20, -2**20,
           -2**20 - 1, 2**27, -2**27, -2**27 - 1, 2**31 - 1, -2**31, 2**31, -2**31 - 1, 2**34, 2**41, 2**48, 2**55,
           2**62, 2**63 - 1, -2**63, -2**63 + 1, -2**62, 2**63, -2**63 - 1]
EDGES64 += [x for n in words.near(3, 2**63 - 1) for x in (n, -n)]


def immediates(rng, op, wide=True):
    """Instructions with the opcode, with boundary immediates."""
    o = bytes([op])
    if op in IDX:
        return [o + u(n, p) for n in EDGE32 for p in (0, 1, 4)] + [o + u(2**32), o + b'\xff' * 5, o + b'\x80']
    if op == 0x11:
        return [o + u(a) + u(b, p) for a in EDGE32 for b in (0, 1, 127, 128, 2**32 - 1) for p in (0, 1)]
    if op in MEM:
        return [o + u(a) + u(b, p) for a in (0, 1, 2, 3, 4, 31, 32, 127, 128, 2**32 - 1) for b in EDGE32 for p in (0, 2)] \
            + [o + u(2**32) + u(0), o + u(0) + u(2**32)]
    if op in (0x41, 0x42):
        return [o + s(n, p) for n in EDGES64 for p in (0, 1, 3)]
    if op == 0x43:
        return [o + rng.randbytes(4) for _ in range(8)] + [o + b'\0\0\xc0\x7f', o + b'\x01\0\x80\xff', o + b'\0\0\0\x80']
    if op == 0x44:
        return [o + rng.randbytes(8) for _ in range(8)] + [o + b'\x01' + b'\0' * 5 + b'\xf0\x7f', o + b'\0' * 7 + b'\x80']
    if op == 0x0E:
        out = []
        for n in [0, 1, 2, 3, 5, 127, 128, 130] + words.near(4, 1000):
            for _ in range(3):
                out.append(o + u(n) + b''.join(u(rng.choice(EDGE32)) for _ in range(n)) + u(rng.choice(EDGE32)))
            out.append(o + u(n) + b''.join(u(i) for i in range(n)) + u(n))
            out.append(o + u(n) + b''.join(u(i) for i in range(n)))
        return out + [o + u(2**32 - 1) + b'\0\0', o + u(2**28) + b'\0\0']
    if op in (2, 3, 4):
        return [o + bytes([bt]) + rest for bt in (0x40, 0x7F, 0x7E, 0x7D, 0x7C)
                for rest in (b'\x0b', b'\x01\x0b', b'\x1a\x01\x0b', b'\x0b\x0b')]
    return [o]


def c09(run):
    rng, out = run.rng, []
    for op in range(256):
        for d in immediates(rng, op):
            out.append(Case('instr', d))
            out.append(Case('instr', d + rng.choice([b'\0', b'\x0b', b'\x80', b'\xff\x01'])))
            out.append(Case('exprtop', d + b'\x0b'))
            if run.thorough or rng.random() < 0.2:
                out.append(Case('exprtop', b'\x01' + d + b'\x1a' + d + b'\x0b'))
            for k in (range(len(d)) if len(d) < 14 and (run.thorough or rng.random() < 0.2) else ()):
                out.append(Case('instr', d[:k]))
        for rest in (b'', b'\0', b'\0\0', b'\0\0\0\0\0\0\0\0', b'\x0b', b'\x40\x0b', b'\x80', b'\xff' * 10, b'\x7f\x0b\x0b'):
            out.append(Case('instr', bytes([op]) + rest))
            out.append(Case('exprtop', bytes([op]) + rest))
            out.append(Case('exprtop', b'\x01' + bytes([op]) + rest + b'\x0b'))
            out.append(Case('exprtop', b'\x02\x40' + bytes([op]) + rest + b'\x0b\x0b'))
            out.append(Case('exprtop', b'\x04\x40\x05' + bytes([op]) + rest + b'\x0b\x0b'))
    for op in (2, 3, 4):                               # every block type byte
        for bt in range(256):
            out.append(Case('instr', bytes([op, bt, 0x0B])))
            out.append(Case('exprtop', bytes([op, bt, 0x01, 0x0B, 0x0B])))
    for op in IDX + [0x11, 0x41, 0x42, 0x43, 0x44] + MEM:   # random immediates
        for _ in range(200 if run.thorough else 25):
            n = rng.getrandbits(rng.randint(0, 32))
            d = bytes([op])
            if op in IDX:
                d += u(n, rng.choice([0, 0, 1]))
            elif op in MEM or op == 0x11:
                d += u(n) + u(rng.getrandbits(rng.randint(0, 32)), rng.choice([0, 0, 1]))
            elif op in (0x41, 0x42):
                d += s((n if op == 0x41 else rng.getrandbits(rng.randint(0, 63))) * rng.choice([1, -1]))
            else:
                d += rng.randbytes(4 if op == 0x43 else 8)
            out.append(Case('instr', d + rng.randbytes(rng.randrange(3))))
    # sequences, so that an instruction that takes too much or too little derails the next
    all_ops = [o for o in range(0xC0) if o not in (2, 3, 4, 5, 0x0B) and not 0x06 <= o <= 0x0A
               and not 0x12 <= o <= 0x19 and not 0x1C <= o <= 0x1F and not 0x25 <= o <= 0x27]
    table_ = {o: immediates(rng, o) for o in all_ops}
    for _ in range(20000 if run.thorough else 2500):
        code = b''.join(rng.choice(table_[rng.choice(all_ops)]) for _ in range(rng.randint(1, 12)))
        out.append(Case('exprtop', code + b'\x0b' + rng.randbytes(rng.randrange(2))))
    for op in all_ops:                                  # in bodies
        for d in run.pick(table_[op], 6, 20):
            out.append(Case('func', b'\x00' + d + b'\x0b'))
    run.check('opcodes', out)


# -------------------------------------------------------------------------------------- structure

def c10(run):
    rng, out = run.rng, []
    bts = [0x40, 0x7F, 0x7E, 0x7D, 0x7C]
    plain = [b'\x01', b'\x1a', b'\x41\x0b', b'\x41\x05', b'\x42\x0b', b'\x20\x05', b'\x0c\x0b', b'\x6a', b'\x0f', b'\x00',
             b'\x0e\x01\x05\x0b', b'\x44' + b'\x0b' * 8, b'\x43\x05\x05\x05\x05', b'\x28\x0b\x05', b'\x11\x0b\x05']

    def put(kind, d):
        out.append(Case(kind, d))
        if kind == 'exprtop' and rng.random() < 0.3:
            out.append(Case('func', b'\x00' + d))
            out.append(Case('global', b'\x7f\x00' + d))

    def enc(o):
        if o in (2, 3, 4):
            return bytes([o, rng.choice(bts)])
        if o == 1:
            return rng.choice(plain)
        return bytes([o])

    # from every stack of constructs, every symbol; then closed in several ways
    for e in run.emit('GenNest', env={'NEST_DEPTH': '5' if run.thorough else '4'}):
        n = len(e['ns'])
        for rep in range(6 if run.thorough else 3):
            d = b''.join(enc(o) for o in e['p'])
            put('exprtop', d + b'\x0b' * n)
            put('exprtop', d + b'\x0b' * max(0, n - 1))
            put('exprtop', d + b'\x0b' * (n + 1))
            if rep == 0:
                put('exprtop', d + b'\x05' + b'\x0b' * n)
                put('exprtop', d)
            mid = b''
            for _ in range(n):
                mid += b''.join(rng.choice(plain) for _ in range(rng.randrange(3))) + b'\x0b'
            put('exprtop', d + mid + rng.randbytes(rng.randrange(2)))
    # all short sequences
    import itertools
    sym = [b'\x02\x40', b'\x03\x7f', b'\x04\x40', b'\x05', b'\x0b', b'\x01']
    for n in range(1, 7 if run.thorough else 6):
        seqs = list(itertools.product(sym, repeat=n))
        for q in seqs:
            d = b''.join(q)
            out.append(Case('exprtop', d))
            if n < 5:
                out.append(Case('instr', d))
    # longer ones at random: balanced trees, then disturbed
    def tree(depth):
        d = b''
        for _ in range(rng.randrange(4)):
            k = rng.random()
            if k < 0.5 or depth == 0:
                d += rng.choice(plain)
            elif k < 0.75:
                d += bytes([rng.choice([2, 3]), rng.choice(bts)]) + tree(depth - 1) + b'\x0b'
            else:
                d += bytes([4, rng.choice(bts)]) + tree(depth - 1) + rng.choice([b'', b'\x05', b'\x05' + tree(depth - 1)]) + b'\x0b'
        return d
    for _ in range(30000 if run.thorough else 4000):
        d = tree(rng.randint(1, 6)) + b'\x0b'
        if rng.random() < 0.5:
            d = gen.mutate(rng, d, 0)
        put('exprtop', d)
    for n in [1, 2, 7, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] + words.near(3, 500):    # deep
        for o in (2, 3, 4):
            for delta in (-1, 0, 1):
                put('exprtop', bytes([o, 0x40]) * n + b'\x0b' * (n + 1 + delta))
        put('exprtop', b'\x04\x40\x05' * n + b'\x0b' * (n + 1))
        put('exprtop', b'\x04\x40\x01' * n + b'\x05\x0b' * n + b'\x0b')
        put('exprtop', (b'\x04\x40' * n + b'\x05\x0b' * n)[:-1] + b'\x05\x0b\x0b')
        put('exprtop', b'\x02\x40\x0b' * n + b'\x0b')                               # wide
        put('exprtop', b'\x04\x7e\x05\x0b' * n + b'\x0b')
        fill = rng.choice(plain)
        for x in plain:                                                             # long
            put('exprtop', fill * n + x + rng.choice(plain) + b'\x0b')
            put('exprtop', b'\x04\x40' + x * n + b'\x05' + fill * (n + 1) + x + b'\x0b' + x + b'\x0b')
    run.check('bracketing', out)


# ---------------------------------------------------------------------------------------- entries

def entries(rng):
    """(kind, encoding, offsets of tag bytes) of random entries."""
    def lim():
        a, b = rng.getrandbits(rng.randint(0, 32)), rng.getrandbits(rng.randint(0, 32))
        return rng.choice([limits(a), limits(a, b), limits(0), limits(0, 0), limits(2**32 - 1, 2**32 - 1)])

    def expr():
        return rng.choice([const(rng.choice(TYPES), rng.getrandbits(30)) + b'\x0b', b'\x23' + u(rng.getrandbits(rng.randint(0, 9))) + b'\x0b',
                           b'\x0b', b'\x41\x05\x1a\x0b', b'\x02\x40\x0b\x0b'])

    def nm():
        return name(text(rng))
    t = rng.choice(TYPES)
    p, q = [rng.choice(TYPES) for _ in range(rng.randrange(5))], [rng.choice(TYPES) for _ in range(rng.randrange(3))]
    i = u(rng.getrandbits(rng.randint(0, 32)), rng.choice([0, 0, 1]))
    yield 'functype', functype(p, q), [0] + [2 + k for k in range(len(p))] + [3 + len(p) + k for k in range(len(q))]
    a, b = nm(), nm()
    k = len(a) + len(b)
    yield 'import', a + b + b'\0' + i, [k]
    yield 'import', a + b + b'\1\x70' + lim(), [k, k + 1, k + 2]
    yield 'import', a + b + b'\2' + lim(), [k, k + 1]
    yield 'import', a + b + b'\3' + bytes([t, rng.randrange(2)]), [k, k + 1, k + 2]
    yield 'table', b'\x70' + lim(), [0, 1]
    yield 'mem', lim(), [0]
    yield 'global', bytes([t, rng.randrange(2)]) + expr(), [0, 1, 2]
    yield 'export', a + bytes([rng.randrange(4)]) + i, [len(a)]
    yield 'start', i, []
    yield 'elem', i + expr() + vec(u(rng.getrandbits(rng.randint(0, 32))) for _ in range(rng.randrange(5))), []
    yield 'data', i + expr() + name(rng.randbytes(rng.randrange(6))), []
    yield 'limits', lim(), [0]
    yield 'tabletype', b'\x70' + lim(), [0, 1]
    yield 'globaltype', bytes([t, rng.randrange(2)]), [0, 1]
    yield 'func', local_runs([(rng.randrange(4), rng.choice(TYPES)) for _ in range(rng.randrange(4))]) + expr(), []


def c11(run):
    rng, out = run.rng, []
    for kind in ('valtype', 'blocktype', 'mut', 'elemtype', 'limits', 'globaltype', 'functype', 'tabletype'):
        for b in range(256):
            for rest in (b'', b'\0', b'\0\0', b'\x7f\0', b'\x70\0\x01', b'\x01\x02\x03'):
                out.append(Case(kind, bytes([b]) + rest))
    full = set()
    for r in range(600 if run.thorough else 120):
        for kind, d, tags in entries(rng):
            out.append(Case(kind, d + rng.randbytes(rng.randrange(3))))
            if r % 4 == 0:
                out.append(Case(kind, d[:rng.randrange(len(d))]))
                out.append(Case(kind, gen.mutate(rng, d, 0)))
            for j, t in enumerate(tags):
                if (kind, j, d[t]) not in full and r < 60:       # every byte in every kind of tag
                    full.add((kind, j, d[t]))
                    for b in range(256):
                        out.append(Case(kind, d[:t] + bytes([b]) + d[t + 1:]))
    # numbers of any size in every numeric field
    for a in EDGE32:
        for b in (0, 1, 128, 2**31, 2**32 - 1):
            out += [Case('limits', limits(a, b)), Case('limits', limits(b, a)), Case('mem', limits(a, b)), Case('table', table(a, b)),
                    Case('import', imp_mem('a', 'b', a, b)), Case('import', imp_table('a', 'b', a, b))]
        out += [Case('limits', limits(a)), Case('export', export('e', 0, a)), Case('start', u(a)), Case('import', imp_func('a', 'b', a)),
                Case('elem', u(a) + const(I32, 1) + b'\x0b' + vec([u(a), u(0), u(a)])), Case('data', u(a) + b'\x0b' + name('q'))]
    for n in [0, 1, 127, 128, 255, 256, 257, 1000] + words.near(2, 5000):
        out.append(Case('data', u(0) + b'\x0b' + name(bytes(i * 7 % 256 for i in range(n)))))
        for d in patterns(rng, n):
            out.append(Case('data', u(0) + b'\x0b' + name(d)))
        out.append(Case('functype', functype([TYPES[i % 4] for i in range(n)], [])))
        out.append(Case('functype', functype([], [TYPES[(i + 1) % 4] for i in range(n)])))
        out.append(Case('elem', u(0) + b'\x0b' + vec(u(i) for i in range(n))))
    run.check('entries', out)
    # whole modules, with everything in them
    out = []
    for _ in range(10000 if run.thorough else 1600):
        m = gen.Module(rng, size=6)
        out.append(Case('module', m.bytes()))
        # decoding does not depend on validity
        for i, kinds in ((1, 'functype'), (2, 'import'), (4, 'table'), (5, 'mem'), (6, 'global'), (7, 'export'), (9, 'elem'), (11, 'data')):
            if rng.random() < 0.4:
                m.parts[i] = m.parts[i] + [d for k, d, _ in entries(rng) if k == kinds]
                rng.shuffle(m.parts[i])
        if rng.random() < 0.3:
            m.start = u(rng.getrandbits(20))
        out.append(Case('module', m.bytes()))
        out.append(Case('module', scale.repeats(rng, m).bytes()))
    # the same entry twice in a row, and again later, in every section
    for kind, i in (('functype', 1), ('import', 2), ('table', 4), ('mem', 5), ('global', 6), ('export', 7), ('elem', 9), ('data', 11)):
        for _ in range(40 if run.thorough else 8):
            es = [d for k, d, _ in entries(rng) if k == kind] + [d for k, d, _ in entries(rng) if k == kind]
            a, b = rng.choice(es), rng.choice(es)
            for p in ([a, a], [a, a, a], [a, b, a], [a, b, b, a], [b, a, a, b, b], [a] * 9):
                out.append(Case('module', MAGIC + section(i, vec(p))))
    for n in [1, 2, 5, 20, 70, 300] + words.near(3, 400):
        for d in patterns(rng, n):
            out.append(Case('module', MAGIC + section(5, vec([limits(1)])) + section(11, vec([u(0) + const(I32) + b'\x0b' + name(d)] * rng.choice([1, 2])))))
        for fs in ([0] * n, [1] * n, [i % 2 for i in range(n)], [0] * (n - 1) + [1], list(range(n))[::-1]):
            out.append(Case('module', MAGIC + section(4, vec([table(1)])) + section(9, vec([u(0) + const(I32) + b'\x0b' + vec(u(f) for f in fs)]))))
    run.check('modules', out)
    run.check('large modules', scale.large(run))


def patterns(rng, n):
    """Strings of n bytes in which something could be taken to be redundant."""
    x = rng.randbytes(n)
    k = rng.randrange(n + 1)
    return [b'\0' * n, b'\xff' * n, x[:k] + b'\0' * (n - k), b'\0' * k + x[k:], bytes(sorted(x)), x[:k] + x[:n - k], bytes([7]) * n, b'\x80' * n, b'\x0b' * n]


# ----------------------------------------------------------------------------------------- hostile

HOSTILE = [2**20, 2**22 + 1, 2**24, 2**26, 2**27 - 1, 2**28, 2**29 + 1, 2**30, 2**31 - 1, 2**31, 2**32 - 1] + words.near(2**26, 2**32 - 2)[:4]
ELEMENTS = ('valtype limits functype tabletype globaltype blocktype mut elemtype import export global table mem elem data '
            'func start instr exprtop string consume u8 u64 i8 i64 f32 f64 byte a0.byte a8.u32').split()


def hostile(rng, big):
    """Modules that announce far more than they contain."""
    f = section(1, vec([VOIDF])) + section(3, vec([u(0)]))
    off0 = const(I32) + b'\x0b'
    for tail in (b'', b'\0', b'\x7f\x7f\x7f', b'\x60\0\0', b'\x01a\x01b\x00\x00'):
        for i in list(range(0, 12)):
            yield MAGIC + section(i, u(big) + tail)
            yield MAGIC + bytes([i]) + u(big) + tail
            yield MAGIC + bytes([i]) + u(big) + u(big) + tail
        for d in (b'\x60' + u(big) + tail, b'\x60\0' + u(big) + tail):
            yield MAGIC + section(1, u(1) + d)
        yield MAGIC + section(2, u(1) + u(big) + tail)
        yield MAGIC + section(2, u(1) + name('m') + u(big) + tail)
        yield MAGIC + section(7, u(1) + u(big) + tail)
        yield MAGIC + section(0, u(big) + tail)
        yield MAGIC + section(4, vec([table(1)])) + section(9, u(1) + u(0) + off0 + u(big) + tail)
        yield MAGIC + section(5, vec([limits(1)])) + section(11, u(1) + u(0) + off0 + u(big) + tail)
        for code in (u(big) + tail, u(0) + b'\x0e' + u(big) + tail, u(1) + u(2) + b'\x7f' + b'\x0e' + u(big) + tail,
                     u(2) + u(2) + b'\x7f' + u(2**32 - 1) + b'\x7e' + tail):
            yield MAGIC + f + section(10, u(1) + sized(code))
            yield MAGIC + f + section(10, u(1) + u(big) + code)
    # numbers that are merely large
    for d in (u(0) + b'\x0b', u(0) + b'\x20' + u(big) + b'\x1a\x0b', u(0) + b'\x41\0\x21' + u(big) + b'\x0b', u(0) + b'\x0c' + u(big) + b'\x0b',
              u(0) + b'\x41\0\x0d' + u(big) + b'\x0b', u(0) + b'\x10' + u(big) + b'\x0b', u(0) + b'\x41\0\x11' + u(big) + b'\0\x0b',
              u(0) + b'\x41\0\x11\0' + u(big) + b'\x0b', u(0) + b'\x23' + u(big) + b'\x1a\x0b', u(0) + b'\x41\0\x24' + u(big) + b'\x0b',
              u(0) + b'\x41\0\x28' + u(big) + b'\0\x1a\x0b', u(0) + b'\x41\0\x28\0' + u(big) + b'\x1a\x0b', u(0) + b'\x3f' + u(big) + b'\x1a\x0b',
              u(0) + b'\x41\0\x40' + u(big) + b'\x1a\x0b', u(0) + b'\x41\0\x0e\x02' + u(big) + u(big) + u(big) + b'\x0b',
              u(0) + b'\x02\x40\x41\0\x0e\x01' + u(0) + u(big) + b'\x0b\x0b', u(0) + b'\x00\x0c' + u(big) + b'\x0b',
              u(0) + b'\x00\x20' + u(big) + b'\x0b', u(0) + b'\x41\0\x36' + u(big) + u(big) + b'\x0b',
              u(0) + b'\x41\0\x42\0\x37' + u(big) + u(0) + b'\x0b'):
        for mem in (b'', section(5, vec([limits(1)]))):
            yield MAGIC + f + section(4, vec([table(1)])) + mem + section(10, vec([sized(d)]))
    for i in range(4):
        yield MAGIC + section(1, vec([VOIDF])) + section(5, vec([limits(1)])) + section(7, vec([export('e', i, big)]))
    yield MAGIC + section(1, vec([VOIDF])) + section(2, vec([imp_func('a', 'b', big)]))
    yield MAGIC + section(1, vec([VOIDF])) + section(3, vec([u(big)])) + section(10, vec([body(b'\x0b')]))
    yield MAGIC + f + section(8, u(big)) + section(10, vec([body(b'\x0b')]))
    yield MAGIC + section(4, vec([table(1)])) + section(9, vec([u(big) + off0 + vec([])]))
    yield MAGIC + section(4, vec([table(1)])) + section(9, vec([u(0) + off0 + vec([u(big)])]))
    yield MAGIC + section(5, vec([limits(1)])) + section(11, vec([u(big) + off0 + vec([])]))
    yield MAGIC + section(5, vec([limits(1)])) + section(11, vec([u(0) + b'\x23' + u(big) + b'\x0b' + vec([])]))
    yield MAGIC + section(6, vec([globaltype(I32, 0) + b'\x23' + u(big) + b'\x0b']))
    for t in (table, limits):
        i = 4 if t is table else 5
        for lo, hi in ((big, None), (0, big), (big, big), (big, 0), (big, big - 1)):
            yield MAGIC + section(i, vec([t(lo, hi)]))


def c12(run):
    rng, out = run.rng, []
    for big in HOSTILE:
        for d in hostile(rng, big):
            out.append(Case('module', d))
        for kind in VECS + SIZED + list(ELEMENTS):
            if 'a0' in kind:
                continue
            for tail in (b'', b'\x01', b'\xff', b'\x01\x01\x01\x01\x01', b'\x7f\x00\x0b'):
                if kind.partition('.')[0] == 'cvec' or '.cvec' in kind:
                    continue                                  # runs expand: see the known findings
                out.append(Case(kind, u(big) + tail))
                if kind != 'func':
                    out.append(Case(kind, u(1) + u(big) + tail))
        for first in (1, 2):
            out.append(Case('cvec.u8', u(2) + u(first) + b'\x01' + u(2**32 - first) + b'\x02'))
        out.append(Case('cvec.valtype', u(big) + b'\x01\x7f' * 3))
        out.append(Case('cvec.u64', u(big)))
    # 2 GB is far more than these inputs could need, and what they do need is measured
    run.check('hostile counts', out, kinds=3, mem=2 << 30, stack_mb=256)
    out = []
    # every prefix of some modules; random bytes everywhere; deep and long bodies
    for _ in range(60 if run.thorough else 12):
        d = gen.Module(rng, size=8).bytes()[:700]
        out += [Case('module', d[:k], nt=1) for k in range(len(d))]
    for _ in range(30000 if run.thorough else 4000):
        d = gen.Module(rng, size=6).bytes()
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            d = gen.mutate(rng, d)
        out.append(Case('module', d, nt=1))
    for kind in VECS + SIZED + list(ELEMENTS):
        for _ in range(200 if run.thorough else 40):
            if 'cvec' in kind:
                d = content(rng, kind, off(rng, 0.2, False), off(rng, 0.2, False))
            else:
                d = rng.randbytes(rng.randrange(12))
                if rng.random() < 0.5:
                    d = bytes(b & rng.choice([0xFF, 0x7F, 0x03, 0x0F]) for b in d)
            out.append(Case(kind, d))
    for _ in range(6000 if run.thorough else 1500):
        d = MAGIC
        for i in range(rng.randint(1, 4)):
            c = bytes(b & rng.choice([0xFF, 0x7F, 0x03, 0x1F]) for b in rng.randbytes(rng.randrange(14)))
            if not (c and rng.random() < 0.1):
                d += bytes([rng.choice([1, 2, 4, 5, 6, 7, 8, 9, 11, 0, rng.randrange(14)])]) + sized(c)
        if b'\x0a' not in d:                               # random locals may ask for gigabytes: a known finding
            out.append(Case('module', d, nt=1))
    for _ in range(6000 if run.thorough else 1500):         # random code
        c = bytes(rng.choice([rng.randrange(0xC0), 0x0B, 0x05, 2, 4, 0x40, 0x41, 0x6A, 0x1A, 0, 1, 0x20, 0x0D]) for _ in range(rng.randrange(24)))
        out.append(Case('exprtop', c, nt=1))
        out.append(Case('module', MAGIC + section(1, vec([functype([I32, I32], [])])) + section(3, vec([u(0)])) + section(4, vec([table(1)]))
                        + section(5, vec([limits(1)])) + section(10, vec([body(c + b'\x0b' * rng.randrange(3), [(1, I32)])])), nt=1))
    for n in [100, 200, 300] + ([1000, 2000] if run.thorough else [500, 1100]) + words.near(3, 1500):
        f = section(1, vec([VOIDF])) + section(3, vec([u(0)]))
        for code in (b'\x02\x40' * n + b'\x0b' * n, b'\x41\0' * n + b'\x1a' * n, b'\x41\0\x04\x40' * n + b'\x0b' * n,
                     *(op * n + br + u(to) + b'\x0b' * n for op in (b'\x02\x40', b'\x03\x40', b'\x41\0\x04\x40')
                       for br in (b'\x0c', b'\x41\0\x0d', b'\x41\0\x0e\0') for to in (0, 1, n // 2, n)), b'\x02\x40' * n, b'\x00' * n, b'\x1a' * n, b'\x41\0' * n,
                     b'\x41\0\x0e' + u(n) + b'\0' * n + b'\0', b'\x01' * n):
            out.append(Case('module', MAGIC + f + section(10, vec([body(code + b'\x0b')])), nt=1))
    for _ in range(6000 if run.thorough else 1200):         # declarations and bodies out of step, entries gone
        m = scale.repeats(rng, gen.Module(rng, size=4))
        for i in rng.sample(range(1, 12), rng.choice([0, 1, 1, 2])):
            if i == 8:
                m.start = rng.choice([None, u(rng.randrange(4))])
            elif m.parts[i]:
                m.parts[i] = m.parts[i][:rng.randrange(len(m.parts[i]))] if rng.random() < 0.6 else m.parts[i] * 2
        out.append(Case('module', m.bytes(), nt=1))
    for a in range(5):
        for b in range(5):
            out.append(Case('module', MAGIC + section(1, vec([VOIDF])) + section(3, vec([u(0)] * a)) + section(10, vec([body(b'\x0b')] * b))))
    run.check('no crash', out, kinds=3, mem=3 << 30)
    run.check('large modules', scale.large(run, (70000, 300000), (300, 1000) if run.thorough else (400,)), kinds=3)
    run.check('inputs of the other checks', run.gather(others(), 3000 if run.thorough else 350), kinds=3)
    known_findings(run)


def others():
    from . import prim, valid
    return [prim.c01, prim.c02, prim.c03, prim.c04, prim.c05, prim.c06, c07, c08, c09, c10, c11, valid.c13, valid.c14, valid.c15,
            valid.c16, valid.c17, valid.c18, valid.c19, valid.c20, valid.c21, c25]


def known_findings(run):
    """Defects that are on record: reported if they are still there, and nothing else is excused by them."""
    known = {}
    with open(os.path.join(core.VERIF, 'KNOWN-FINDINGS.txt')) as f:
        for line in f:
            if line.startswith('known: property=C12 '):
                key, _, what = line[len('known: property=C12 '):].strip().partition(': ')
                known[key] = what
    head = MAGIC + section(1, vec([VOIDF])) + section(3, vec([u(0)]))
    for key, code, mem in (('deep-nesting', body(b'\x02\x40' * 20000 + b'\x0b' * 20001), 2 << 30),
                           ('locals-run', body(b'\x0b', [(2**32 - 1, I32)]), 2 << 30)):
        case = Case('module', head + section(10, vec([code])), nt=1)
        r = core.record(run.harness(), [case], mem=mem, stack_mb=8, timeout=60)[0]
        if '"r":"ok"' in r or '"r":"hang"' in r:
            continue
        if key not in known:
            run.report('announced sizes', dict(kind=case.kind, data=case.data.hex(), pre=0, nt=1, preludes=[], kinds=False, record={'r': 'crash'}))
        core.log('KNOWN-FINDING: property=C12 %s: %s' % (key, known[key]))


# -------------------------------------------------------------------------------------- first fault

def c25(run):
    run.check('faults', faulty(run), kinds=1)


def faulty(run):
    """Malformed elements and modules, with one fault or several."""
    rng, out = run.rng, []
    for _ in range(60 if run.thorough else 14):
        d = gen.Module(rng, size=6).bytes()[:600]
        out += [Case('module', d[:k], nt=1) for k in range(len(d))]
    for _ in range(40000 if run.thorough else 7000):
        d = gen.Module(rng, size=5).bytes(customs=0.15)
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            d = gen.mutate(rng, d, 0 if rng.random() < 0.05 else 8)
        out.append(Case('module', d, nt=1))
    for _ in range(8000 if run.thorough else 1500):
        out.append(Case('module', sized_module(rng, 0.3), nt=1))
    for r in range(300 if run.thorough else 60):
        for kind, d, tags in entries(rng):
            for t in tags:
                out.append(Case(kind, d[:t] + bytes([rng.randrange(256)]) + d[t + 1:]))
            out.append(Case(kind, d[:rng.randrange(len(d))]))
            for _ in range(2):
                out.append(Case(kind, gen.mutate(rng, gen.mutate(rng, d, 0), 0)))
    for kind in VECS + SIZED:
        for _ in range(100 if run.thorough else 20):
            d = content(rng, kind, off(rng, 0.3, 'cvec' not in kind), off(rng, 0.3, 'cvec' not in kind))
            if 'cvec' not in kind and rng.random() < 0.5:
                d = gen.mutate(rng, d, 0)
            out.append(Case(kind, d[:rng.randrange(len(d) + 1)] if rng.random() < 0.4 else d))
    for op in range(256):
        for d in run.pick(immediates(rng, op), 4, 30):
            out.append(Case('instr', d))
            out.append(Case('exprtop', d + b'\x0b'))
            out.append(Case('exprtop', b'\x02\x40' + d + b'\x05\x0b\x0b'))
            for k in range(len(d)):
                if k < 12:
                    out.append(Case('instr', d[:k]))
                    out.append(Case('exprtop', b'\x01' + d[:k]))
    for a in range(256):                                     # ids and tags by value
        out.append(Case('module', MAGIC + bytes([a]) + sized(b'\0')))
        out.append(Case('module', MAGIC + section(5, vec([])) + bytes([a]) + sized(b'\0')))
        out.append(Case('module', MAGIC + section(11, vec([])) + bytes([a]) + u(50)))
        out.append(Case('module', MAGIC + bytes([a])))
        out.append(Case('module', MAGIC + bytes([a, 0x80, 0x80])))
        out.append(Case('module', MAGIC + bytes([a]) + b'\xff' * 6))
        for i in range(8):
            d = bytearray(MAGIC)
            d[i] = a
            out.append(Case('module', d))
            out.append(Case('module', d + rng.choice([b'\0', b'\x01\0', b'\x0c', b'\x01\x01\0'])))
            out.append(Case('module', d[:rng.randint(i + 1, 8)]))
            d[rng.randrange(8)] = rng.choice([0, 1, 2, 0x0d, 0x61, 0xff, rng.randrange(256)])
            out.append(Case('module', d))
    for a in words.near(0, 2**32 - 1):                        # other magic numbers and versions
        for e in ('little', 'big'):
            out.append(Case('module', MAGIC[:4] + a.to_bytes(4, e)))
            out.append(Case('module', a.to_bytes(4, e) + MAGIC[4:]))
    # two faults: which comes first
    faults = {1: [b'\x61\0\0', b'\x60\x01\x01\0', b'\x60\x01', b'\x60\xff\xff\xff\xff\x7f'],
              2: [b'\x01\xff\x01a\x00\x00', b'\x01a\x01\xc0\x09\x00', b'\x01a\x01b\x04', b'\x01a\x01b\x01\x71\x00\x00', b'\x01a\x01b\x02\x02\x00', b'\x01a\x01b\x03\x7f\x02'],
              4: [b'\x71\0\0', b'\x70\x02\0', b'\x70\0'], 5: [b'\x02\0', b'\x01\0', b'\x01\0\xff\xff\xff\xff\x1f'],
              6: [b'\x7b\0\x41\0\x0b', b'\x7f\x02\x41\0\x0b', b'\x7f\0\x41\0', b'\x7f\0\x06\x0b', b'\x7f\0\x05\x0b', b'\x7f\0\x41\xff\xff\xff\xff\x4f\x0b'],
              7: [b'\x01\xff\x00\x00', b'\x01a\x04\x00', b'\x01a\x00'], 9: [b'\0\x41\0\x0b\x02\0', b'\0\x41\0\x0b\xff\xff\xff\xff\x1f'], 11: [b'\0\x41\0\x0b\x05ab', b'\0\xff\x0b\0']}
    ids = sorted(faults)
    for i in ids:
        for f in faults[i]:
            for extra in (b'', b'\0', b'\0\0\0'):
                for delta in (-1, 0, 1, 5):
                    c = u(1) + f + extra
                    d = MAGIC + bytes([i]) + u(max(0, len(c) + delta)) + c
                    out.append(Case('module', d))
                    out.append(Case('module', d + b'\x0c\0'))
                    j = rng.choice(ids)
                    out.append(Case('module', d + section(j, u(1) + rng.choice(faults[j]))))
    for b in (b'\x06\x0b', b'\x05\x0b', b'\x02\x40\x05\x0b\x0b', b'\x04\x40\x05\x05\x0b\x0b', b'\x02\x41\x0b\x0b', b'\x0b\x0b', b'\x02\x40\x0b', b''):
        for l in (b'\0', b'\x01\x01\x7b', b'\x01\xff\xff\xff\xff\x7f\x7f', b'\x02\x01\x7f', b'\x01'):
            for delta in (-1, 0, 1):
                c = u(1) + u(max(0, len(l + b) + delta)) + l + b
                out.append(Case('module', MAGIC + section(1, vec([VOIDF])) + section(3, vec([u(0)])) + section(10, c)))
                out.append(Case('func', l + b))
    return out
