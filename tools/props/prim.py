"""C01-C06: integers, raw bytes, sizes, vectors, names."""

import struct

from core import Case
from wasm import *
import gen
import words
from . import scale

WIDTHS = (8, 16, 32, 64)


# ------------------------------------------------------------------------------------------ LEB-128

def blur(rng, w, sg, p):
    """The same state of the machine, reached with other values in the bits it does not remember."""
    out = []
    for i, b in enumerate(p):
        for j in range(7):
            if 7 * i + j < (w - 1 if sg else w) and rng.random() < 0.5:
                b ^= 1 << j
        out.append(b)
    return out


def leb_cases(run, sg):
    rng = run.rng
    kinds = {w: ('i%d' if sg else 'u%d') % w for w in WIDTHS}
    out = []

    def put(w, data, note=''):
        out.append(Case(kinds[w], bytes(data), note=note))

    # every transition of the machine, then ways to go on
    for e in run.emit('GenLeb'):
        if e['sg'] != sg:
            continue
        w, p = e['w'], e['p']
        heads = [p, blur(rng, w, sg, p[:-1]) + p[-1:]]
        if run.thorough:
            heads += [blur(rng, w, sg, p[:-1]) + p[-1:] for _ in range(3)]
        for h in heads:
            if e['st'] == 'more':
                tails = [b'', b'\x00', b'\x7f', bytes([rng.randrange(128), 0x55])]
                if run.thorough:
                    tails += [b'\x80\x00', b'\xff\x7f', b'\x01', b'\x40', b'\x3f', b'\x80', b'\xff']
            else:
                tails = [rng.choice([b'', b'\x00', b'\x80', b'\xff\x01'])]
            for t in tails:
                put(w, bytes(h) + t)
    # values around every power of two, padded
    enc = s if sg else u
    for w in WIDTHS:
        for k in range(w + 2):
            for d in (-2, -1, 0, 1, 2):
                for sign in ((1, -1) if sg else (1,)):
                    v = sign * (1 << k) + d
                    if v < 0 and not sg:
                        continue
                    for pad in (0, 1, 2, 3, 9):
                        put(w, enc(v, pad) + b'\x2a')
        for n in words.near(0, 2**64):
            for v in ((n, -n, n - (1 << w)) if sg else (n,)):
                for pad in (0, 1, 4):
                    put(w, enc(v, pad) + b'\x2a')
        # padding of any length
        for pad in list(range(4, 45)) + [63, 64, 65, 100, 127, 128, 255, 256, 257, 300, 600, 1000] + words.near(45, 3000):
            for v in ((0, 1, -1, -5, 63, -(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, 1, 77, (1 << w) - 1)):
                put(w, enc(v, pad) + b'\x01')
                put(w, enc(v, pad)[:-1])
                # the last group, or one before it, is not padding after all
                for last in (1, 0x40, 0x7F, 0x7E if v < 0 else 2):
                    put(w, enc(v, pad)[:-1] + bytes([last]))
                    put(w, enc(v, pad)[:-1] + bytes([0x80 | last]) + enc(v, pad)[-1:])
        # and garbage
        for _ in range(20000 if run.thorough else 1500):
            n = rng.randint(1, w // 7 + 4)
            put(w, bytes(rng.choice([0x80, 0xFF, rng.randrange(128, 256)]) for _ in range(n))
                + bytes(rng.choice([[], [rng.randrange(128)], [rng.choice([0, 0x7F, 0x40, 1]), 9]])))
    # two bytes, exhaustively
    for w in ((8, 16, 32, 64) if run.thorough else (8,)):
        for a in range(256):
            put(w, [a])
            for b in (range(256) if run.thorough else (range(0, 256) if a >= 128 and a % 8 == rng.randrange(8) else (0,))):
                put(w, [a, b])
    return out


def c01(run):
    run.model('LebCheck', {'LEB_DEEP': '1' if run.thorough else '0'})
    run.check('integers', leb_cases(run, False), kinds=True)


def c02(run):
    run.model('LebCheck', {'LEB_DEEP': '1' if run.thorough else '0'})
    run.check('integers', leb_cases(run, True), kinds=True)


# --------------------------------------------------------------------------------- bytes and floats

def c03(run):
    rng, out = run.rng, []
    for b in range(256):
        out += [Case('byte', [b]), Case('byte', [b, 255 - b])]
    out.append(Case('byte', b''))
    for n in range(9):
        kind = 'a%d.byte' % n
        for have in range(11):
            for _ in range(4):
                out.append(Case(kind, rng.randbytes(have)))
        for i in range(n):                                          # every byte value in every place
            for b in range(256):
                d = bytearray(rng.randbytes(n))
                d[i] = b
                out.append(Case(kind, bytes(d) + rng.randbytes(rng.randrange(3))))
        for sub, enc in (('u32', lambda: u(rng.getrandbits(32), rng.choice([0, 0, 1]))),
                         ('i64', lambda: s(rng.getrandbits(64) - 2**63)),
                         ('f32', lambda: rng.randbytes(4))):
            if n == 0 and sub != 'u32':
                continue
            for _ in range(30):
                d = b''.join(enc() for _ in range(n))
                out.append(Case('a%d.%s' % (n, sub), d + rng.randbytes(rng.randrange(3))))
                if d:
                    out.append(Case('a%d.%s' % (n, sub), d[:rng.randrange(len(d))]))
    for kind in ('a2.f64', 'a3.a2.u8', 'a2.vec.byte', 'a3.string', 'a2.sized.u32'):
        for _ in range(200):
            d = content(rng, kind)
            out.append(Case(kind, d + rng.randbytes(rng.randrange(2))))
            out.append(Case(kind, d[:rng.randrange(len(d) + 1)]))
    for kind, n in (('f32', 4), ('f64', 8)):
        for have in range(n + 3):
            out.append(Case(kind, rng.randbytes(have)))
        for i in range(n):
            for b in range(256):
                for base in (b'\0' * n, b'\xff' * n, rng.randbytes(n)):
                    d = bytearray(base)
                    d[i] = b
                    out.append(Case(kind, d))
        for x in words.near(0, 2**(8 * n) - 1):
            out.append(Case(kind, x.to_bytes(n, 'little')))
            if x < 2**60:
                out += [Case(kind, struct.pack('<f' if n == 4 else '<d', v)) for v in (float(x), -float(x))]
        bits, man = (32, 23) if n == 4 else (64, 52)
        exp = ((1 << (bits - man - 1)) - 1) << man
        for sign in (0, 1 << (bits - 1)):
            for x in [0, 1, exp, exp | 1, exp | 1 << (man - 1), exp | 1 << (man - 1) | 1, exp - 1, 1 << man,
                      (1 << man) - 1] + [exp | 1 << k for k in range(man)] + [1 << k for k in range(bits - 1)]:
                out.append(Case(kind, (sign | x).to_bytes(n, 'little') + b'\x11'))
                pre = b'\x43' if n == 4 else b'\x44'
                out.append(Case('instr', pre + (sign | x).to_bytes(n, 'little') + b'\x11'))
        for _ in range(4000 if run.thorough else 400):
            d = rng.randbytes(n)
            out += [Case(kind, d), Case('instr', (b'\x43' if n == 4 else b'\x44') + d),
                    Case('vec.' + kind, u(2) + d + rng.randbytes(n))]
    run.check('raw', out, kinds=True)


# ----------------------------------------------------------------------------------- typed contents

def text(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 9]) if n is None else n
    return ''.join(rng.choice('ab z\x00é߿ࠀ€퟿￿😀\U0010ffff') for _ in range(n)).encode()


def content(rng, kind, size=None, count=None, depth=0):
    """Random bytes of a type. `size` and `count` may alter announced sizes and counts."""
    size = size or (lambda n: u(n))
    count = count or (lambda n: u(n))
    head, _, rest = kind.partition('.')
    sub = lambda k=rest: content(rng, k, size, count, depth + 1)
    if head in ('u8', 'u16', 'u32', 'u64'):
        return u(rng.getrandbits(rng.randint(0, int(head[1:]))), rng.choice([0, 0, 0, 1, 2]))
    if head in ('i8', 'i16', 'i32', 'i64'):
        n = int(head[1:])
        return s(rng.getrandbits(rng.randint(0, n - 1)) * rng.choice([1, -1]), rng.choice([0, 0, 0, 1, 2]))
    if head == 'f32':
        return rng.randbytes(4)
    if head == 'f64':
        return rng.randbytes(8)
    if head == 'byte':
        return rng.randbytes(1)
    if head == 'valtype':
        return bytes([rng.choice(TYPES)])
    if head == 'string':
        t = text(rng)
        return count(len(t)) + t
    if head == 'consume':
        return rng.randbytes(rng.choice([0, 1, 2, 5]))
    if head[0] == 'a' and head[1:].isdigit():
        return b''.join(sub() for _ in range(int(head[1:])))
    if head in ('vec', 'uvec'):
        n = rng.choice([0, 1, 2, 3, 5] if depth else [0, 1, 2, 3, 5, 20])
        return count(n) + b''.join(sub() for _ in range(n))
    if head == 'cvec':
        n = rng.choice([0, 1, 2, 3, 5])
        return count(n) + b''.join(u(rng.choice([0, 0, 1, 2, 3, 7])) + sub() for _ in range(n))
    if head == 'sized':
        d = sub()
        return size(len(d)) + d
    raise ValueError(kind)


SIZED = ('sized.byte sized.u32 sized.i64 sized.f64 sized.a0.byte sized.a2.byte sized.a3.byte sized.vec.byte '
         'sized.vec.u32 sized.string sized.consume sized.sized.byte sized.sized.vec.byte sized.sized.consume '
         'sized.vec.sized.consume sized.vec.sized.vec.byte sized.sized.sized.u32 vec.sized.u32 '
         'vec.sized.vec.byte vec.sized.consume uvec.sized.u32 uvec.sized.vec.byte uvec.sized.string '
         'sized.uvec.sized.vec.byte sized.cvec.u8 a2.sized.u32').split()
VECS = ('vec.u8 vec.u16 vec.u32 vec.u64 vec.i8 vec.i16 vec.i32 vec.i64 vec.f32 vec.f64 vec.byte vec.string '
        'vec.vec.u8 vec.vec.byte vec.a3.byte vec.sized.u32 vec.sized.vec.byte vec.sized.consume vec.valtype '
        'cvec.u8 cvec.u16 cvec.u32 cvec.u64 cvec.i32 cvec.i64 cvec.f32 cvec.f64 cvec.valtype vec.cvec.u8 '
        'uvec.byte uvec.sized.u32 uvec.sized.vec.byte uvec.sized.string').split()


def off(rng, p, wild=True):
    """An announced number that is sometimes not the true one, and sometimes padded."""
    def f(n):
        if rng.random() < p:
            n = max(0, n + rng.choice([-3, -2, -1, -1, 1, 1, 2, 3, 4, 8, 16, 100, 127, 128]))
            if wild and rng.random() < 0.1:
                n = rng.choice([2**32 - 1, 2**31, 2**31 - 1, 2**28, 2**14, 2**21, 65536])
            if wild and rng.random() < 0.03:
                n = rng.choice([2**32, 2**32 + n, 2**35])
        return u(n, rng.choice([0, 0, 0, 0, 1, 2]))
    return f


# ------------------------------------------------------------------------------------------- sizes

def sized_module(rng, p, m=None):
    """A random module with wrong sizes here and there, on sections and bodies."""
    m = m or gen.Module(rng, size=4)
    f = off(rng, p)
    secs = []
    for i, c in m.sections():
        if i == 10:
            bodies = []
            for runs, code in m.codes:
                b = local_runs(runs) + b''.join(code)
                extra = rng.choice([b'', b'', b'', b'', b'\x0b', b'\x01', b'\x00']) if rng.random() < p else b''
                bodies.append(f(len(b) + len(extra)) + b + extra)
            c = u(len(bodies)) + b''.join(bodies)
        secs.append((i, c))
    out = MAGIC
    for j, (i, c) in enumerate(secs):
        if rng.random() < 0.2:
            d = name('c') + rng.randbytes(rng.randrange(4))
            out += b'\0' + f(len(d)) + d
        extra = rng.choice([b'', b'', b'', b'\0', b'\x0b', rng.randbytes(2)]) if rng.random() < p else b''
        n = f(len(c) + len(extra))
        if rng.random() < p / 3 and j + 1 < len(secs):        # takes in all of the next section
            k, d = secs[j + 1]
            n = u(len(c) + 2 + len(d))
        out += bytes([i]) + n + c + extra
    return out


def body_sizes(run):
    """Function bodies that end before, at and after their announced size."""
    rng, out = run.rng, []
    full = [b'\x00' + b'\x0b', b'\x00\x01\x01\x0b', b'\x01\x02\x7f\x41\x00\x1a\x0b', b'\x00\x02\x40\x0b\x0b',
            b'\x00\x42\x80\x01\x1a\x0b']
    for bodies in [[a] for a in full] + [[a, b] for a in full for b in full]:
        for i in range(len(bodies)):
            for delta in (-3, -2, -1, 0, 1, 2, 3, 4, 127, 2**32 - 20):
                for junk in (b'', b'\x0b', b'\x00\x0b', b'\x01'):
                    for fix in (0, 1, -1):
                        enc = b''
                        for j, b in enumerate(bodies):
                            n = len(b) + len(junk) + delta if j == i else len(b)
                            if n < 0:
                                n = 0
                            enc += u(n) + b + (junk if j == i else b'')
                        code = u(len(bodies)) + enc
                        out.append(MAGIC + section(1, vec([functype([], [])])) + section(3, vec([u(0)] * len(bodies)))
                                   + b'\x0a' + u(max(0, len(code) + fix)) + code)
    return [Case('module', d) for d in run.pick(out, 4000)]


def c04(run):
    rng, out = run.rng, []
    n = 800 if run.thorough else 120
    for kind in SIZED:
        for i in range(n):
            d = content(rng, kind, off(rng, 0 if i % 4 == 0 else 0.4))
            out.append(Case(kind, d + rng.randbytes(rng.choice([0, 0, 1, 2, 5]))))
            if i % 3 == 0:
                out.append(Case(kind, d[:rng.randrange(len(d) + 1)]))
    # all sizes around the true one, with more or less input behind them
    for kind in ('sized.byte', 'sized.u32', 'sized.a0.byte', 'sized.a3.byte', 'sized.f64', 'sized.consume',
                 'sized.vec.byte', 'sized.string', 'sized.sized.byte', 'sized.sized.consume'):
        for _ in range(3):
            d = content(rng, kind.partition('.')[2])
            for k in range(len(d) + 5):
                for tail in range(4):
                    out.append(Case(kind, u(k) + d + b'\x01' * tail))
                    out.append(Case(kind, u(k) + (d + b'\0' * 3)[:max(0, k - tail)]))
    for k in [0, 1, 126, 127, 128, 129, 255, 256, 16383, 16384, 20000, 32767, 32768, 65535, 65536, 65537, 70001] + words.near(2, 70000):
        for have in (k - 1, k, k + 1):
            if have >= 0:
                out.append(Case('sized.consume', u(k) + b'\x07' * have))
                out.append(Case('sized.sized.consume', u(k + len(u(k))) + u(k) + b'\x07' * have))
    run.check('sized elements', out)
    out = body_sizes(run)
    for i in range(12000 if run.thorough else 2500):
        out.append(Case('module', sized_module(rng, rng.choice([0, 0.05, 0.15, 0.3]))))
    # one section at a time, with every size around the true one
    secs = {1: vec([functype([I32], [])]), 2: vec([imp_func('m', 'f', 0)]), 4: vec([table(1, 2)]), 5: vec([limits(1)]),
            6: vec([globaltype(I32, 0) + const(I32, 5) + b'\x0b']), 7: vec([]), 9: vec([]), 11: vec([]), 0: name('ab') + b'xyz'}
    for i, c in secs.items():
        for k in range(len(c) + 8):
            for tail in (b'', b'\0' * 3, b'\x01\x01\x00', section(0, name('t'))):
                out.append(Case('module', MAGIC + bytes([i]) + u(k) + c + tail))
        for k in (127, 128, 16384, 2**31, 2**32 - 1, 2**32):
            out.append(Case('module', MAGIC + bytes([i]) + u(k) + c))
    for k in [100, 127, 128, 129, 255, 256, 16383, 16384] + words.near(4, 20000):        # large custom sections and bodies
        d = name('n') + b'\x09' * (k - 2)
        for delta in (-1, 0, 1):
            out.append(Case('module', MAGIC + b'\0' + u(k + delta) + d))
        b = b'\0' + b'\x01' * (k - 2) + b'\x0b'
        for delta in (-1, 0, 1):
            c = u(1) + u(k + delta) + b
            out.append(Case('module', MAGIC + section(1, vec([functype([], [])])) + section(3, vec([u(0)])) + section(10, c)))
    for k in (32768, 65535, 65536, 65537, 70001) + ((2**21 - 1, 2**21) if run.thorough else ()):
        d = name('n') + b'\x09' * (k - 2)
        x = u(0) + const(I32) + b'\x0b' + name(b'\x07' * k)
        for delta in (-1, 0, 1):
            out.append(Case('module', MAGIC + b'\0' + u(k + delta) + d, nt=1))
            out.append(Case('module', MAGIC + section(5, vec([limits(1)])) + b'\x0b' + u(1 + len(x) + delta) + vec([x]), nt=1))
    run.check('modules', out)


# ----------------------------------------------------------------------------------------- vectors

def c05(run):
    rng, out = run.rng, []
    n = 600 if run.thorough else 100
    for kind in VECS:
        for i in range(n):
            d = content(rng, kind, None, off(rng, 0 if i % 3 == 0 else 0.4))
            out.append(Case(kind, d + rng.randbytes(rng.choice([0, 0, 1, 2, 5]))))
            if i % 3 == 0:
                out.append(Case(kind, d[:rng.randrange(len(d) + 1)]))
        head, _, rest = kind.partition('.')
        for k in range(7):                                   # every count against every supply
            for have in range(7):
                d = b''.join((u(rng.choice([0, 1, 2])) if head == 'cvec' else b'') + content(rng, rest)
                             for _ in range(have))
                out.append(Case(kind, u(k) + d))
    # counts at which encodings and buffers change size
    for k in (126, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097) + ((16383, 16384, 65536) if run.thorough else (16384,)) + tuple(words.near(7, 20000)):
        for have in (k - 1, k, k + 1):
            out.append(Case('vec.byte', u(k) + bytes(i % 251 for i in range(have)), nt=1 if k > 5000 else 0))
            if k < 5000:
                out.append(Case('vec.u8', u(k) + bytes(i % 127 for i in range(have))))
            if k < 1000:
                out.append(Case('uvec.byte', u(k) + bytes(i % 127 for i in range(have))))
                out.append(Case('vec.vec.byte', u(k) + b'\x01\x07' * have))
                out.append(Case('cvec.u8', u(k) + b'\x01\x07' * have))
                out.append(Case('vec.valtype', u(k) + b'\x7e' * have))
    for _ in range(20000 if run.thorough else 2500):          # run lengths
        runs = [(rng.choice([0, 0, 1, 2, 3, 10, 127, 128, 130, rng.choice(gen.FEW)]), rng.randrange(128)) for _ in range(rng.randrange(5))]
        d = u(len(runs)) + b''.join(u(a, rng.choice([0, 0, 1])) + bytes([b]) for a, b in runs)
        out.append(Case('cvec.u8', d + rng.randbytes(rng.randrange(2))))
    for k in [999, 1000, 1023, 1024, 1025, 2048, 5000, 16384, 65535, 65536, 65537, 70000] + words.near(1001, 60000):      # long runs between others
        for runs in ([(2, 5), (k, 6), (3, 7)], [(k, 8), (1, 9), (k, 10)], [(0, 1), (k, 2)]):
            if k < 10000 or len(runs) < 3:
                for kind in ('cvec.u8', 'cvec.valtype', 'func'):
                    e = bytes([TYPES[b % 4] if kind != 'cvec.u8' else b for _, b in runs])
                    out.append(Case(kind, vec(u(a) + e[i:i + 1] for i, (a, _) in enumerate(runs)) + b'\x0b'))
            out.append(Case('module', scale.one(runs=[(a, TYPES[b % 4]) for a, b in runs])))
    for k in [1023, 1025, 4097, 16383, 16384, 16385, 20000] + run.pick(words.near(1000, 66000), 6, 60) + ([65535, 65536, 65537] if run.thorough else [65537]):     # many runs
        for n in (0, 1):
            d = u(k) + bytes([n, 0x7F]) * (k - 1)
            for kind in ('cvec.u8', 'cvec.valtype', 'func'):
                for last in (b'\x02\x7e', b'\x02', b''):
                    out.append(Case(kind, d + last + b'\x0b', nt=1 if k > 5000 else 0))
    for total in (2**32 - 1, 2**32, 2**32 + 1, 2**33, 2**31 * 3):   # totals that are too large
        for first in (1, 2, 3, 100):
            rest = total - first
            if rest <= 2**32 - 1 and first + rest >= 2**32:
                out.append(Case('cvec.u8', u(2) + u(first) + b'\x05' + u(rest) + b'\x06'))
                out.append(Case('cvec.valtype', u(3) + u(first) + b'\x7f' + u(0) + b'\x7e' + u(rest) + b'\x7d'))
    for runs in ([1, 2**32 - 1], [2, 2**32 - 1], [1, 2**32 - 1, 5], [0, 1, 0, 2**32 - 1], [5, 2**32 - 5], [5, 2**32 - 4]):
        out.append(Case('cvec.u8', vec(u(r) + b'\x01' for r in runs)))
        out.append(Case('func', sized(vec(u(r) + b'\x7f' for r in runs) + b'\x0b')[1:]))
    out.append(Case('cvec.u8', u(1) + u(2**32) + b'\x01'))
    for kind in ('vec.byte', 'vec.u32', 'vec.string', 'vec.vec.u8', 'uvec.byte', 'uvec.sized.u32', 'cvec.u8', 'vec.f64', 'string'):
        for k in (2**27, 2**28 - 1, 2**31, 2**32 - 1, 2**32, 2**35):
            out.append(Case(kind, u(k) + b'\x01' * 5))
    run.check('vectors', out)

    # vectors inside modules: announce more or less than there is
    out = []

    def around(secid, entries, before=b'', after=b''):
        for k in range(max(0, len(entries) - 2), len(entries) + 3):
            for tail in (b'', b'\0', b'\x01\0'):
                out.append(Case('module', MAGIC + before + section(secid, u(k) + b''.join(entries) + tail) + after))
    for n in (0, 1, 2, 3, 5):
        around(1, [functype([rng.choice(TYPES)] * rng.randrange(4), [rng.choice(TYPES)] * rng.randrange(2)) for _ in range(n)])
        t = section(1, vec([functype([], [])]))
        around(2, [imp_func('a', str(i), 0) for i in range(n)], t)
        around(6, [globaltype(I32, 0) + const(I32, i) + b'\x0b' for i in range(n)])
        around(7, [export(str(i), 2, 0) for i in range(n)], section(5, vec([limits(1)])))
        around(9, [u(0) + const(I32) + b'\x0b' + vec([]) for i in range(n)], section(4, vec([table(1)])))
        around(11, [u(0) + const(I32) + b'\x0b' + name(b'\x01' * i) for i in range(n)], section(5, vec([limits(1)])))
        around(3, [u(0)] * n, t, section(10, vec([body(b'\x0b')] * n)))
        around(10, [body(b'\x0b')] * n, t + section(3, vec([u(0)] * n)))
        around(4, [table(i) for i in range(n)])
        around(5, [limits(i) for i in range(n)])
    for n in list(range(0, 6)) + [127, 128, 129, 300] + words.near(6, 3000):
        for k in (n - 1, n, n + 1):
            if k < 0:
                continue
            f = section(1, vec([functype([], [])])) + section(3, vec([u(0)]))
            out.append(Case('module', MAGIC + f + section(4, vec([table(1)])) + section(9, vec(
                [u(0) + const(I32) + b'\x0b' + u(k) + b'\0' * n])) + section(10, vec([body(b'\x0b')]))))
            out.append(Case('module', MAGIC + section(5, vec([limits(1)])) + section(11, vec(
                [u(0) + const(I32) + b'\x0b' + u(k) + bytes(i % 256 for i in range(n))]))))
            out.append(Case('module', MAGIC + f + section(10, vec([body(b'\x41\x00\x0e' + u(k) + b'\0' * n + b'\0\x0b')]))))
            out.append(Case('module', MAGIC + section(1, vec([b'\x60' + u(k) + b'\x7e' * n + b'\0']))))
            out.append(Case('module', MAGIC + f + section(10, vec([sized(u(k) + b'\x01\x7f' * n + b'\x0b')]))))
    for n in (16384, 32768, 65535, 65536, 65537, 70001):
        for k in (n - 1, n, n + 1):
            out.append(Case('module', MAGIC + section(5, vec([limits(1)])) + section(11, vec(
                [u(0) + const(I32) + b'\x0b' + u(k) + bytes(i % 256 for i in range(n))])), nt=0 if k == n else 1))
            out.append(Case('module', MAGIC + section(1, vec([b'\x60' + u(k) + b'\x7e' * n + b'\0'])), nt=0 if k == n else 1))
    for n in (127, 128, 300) + ((1000,) if run.thorough else ()):
        for k in (n - 1, n, n + 1):
            out.append(Case('module', MAGIC + section(1, u(k) + functype([I32], [I64]) * n)))
            out.append(Case('module', MAGIC + section(6, u(k) + (globaltype(F32, 1) + const(F32, 9) + b'\x0b') * n)))
            out.append(Case('module', MAGIC + section(2, u(k) + imp_global('', 'x', I64, 0) * n)))
    for _ in range(4000 if run.thorough else 800):
        out.append(Case('module', gen.Module(rng, size=5).bytes()))
    run.check('vectors in modules', out)
    run.check('large modules', scale.large(run))


# ------------------------------------------------------------------------------------------- names

def c06(run):
    rng, out = run.rng, []
    run.model('Utf8Check', {'UTF8_DEEP': '1' if run.thorough else '0'})
    finish = {0: b'', 1: b'\x80', 2: b'\x80\x80', 3: b'\x80\x80\x80', 20: b'\xa0\x80', 21: b'\x9f\xbf',
              30: b'\x90\x80\x80', 31: b'\x8f\xbf\xbf', 9: b''}

    def places(t, every=False):
        """The name by itself and in each place where the format has one."""
        n = name(t)
        yield Case('string', n + b'Z')
        forms = [Case('import', n + name('x') + b'\x02\x00\x01'), Case('import', name('m') + n + b'\x02\x00\x01'),
                 Case('export', n + b'\x00\x07'), Case('module', MAGIC + section(0, n + b'rest')),
                 Case('module', MAGIC + section(2, vec([name('a') + n + b'\x03\x7f\x00']))),
                 Case('module', MAGIC + section(2, vec([n + name('b') + b'\x03\x7f\x00']))),
                 Case('module', MAGIC + section(5, vec([limits(1)])) + section(7, vec([n + b'\x02\x00']))),
                 Case('vec.string', u(2) + name('k') + n), Case('sized.string', sized(n)),
                 Case('uvec.sized.string', u(1) + sized(n))]
        yield from (forms if every else rng.sample(forms, 2))

    for e in run.emit('GenUtf8'):
        p = bytes(e['p'])
        ends = [b'', finish[e['q']]]
        if e['q'] == 9:
            ends.append(finish[e['f']][1:])                # the other continuation bytes are there
        for end in ends:
            for before in (b'', b'a\xc3\xa9'):
                for after in (b'', b'z'):
                    out += places(before + p + end + after)
    # every lead byte with every second byte, and boundaries of the rest
    for a in range(0xC0, 0x100):
        for b in range(0, 256, 1 if run.thorough else 3):
            for rest in (b'', b'\x80', b'\x80\x80', b'\xbf\xbf', b'\xc0'):
                out.append(Case('string', name(bytes([a, b]) + rest)))
    edge = [0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE,
            0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0x110000, 0x13FFFF, 0x1FFFFF]
    for cp in edge:
        for form in (1, 2, 3, 4):                              # overlong forms included
            if form == 1 and cp < 0x80:
                b = bytes([cp])
            elif form == 2 and cp < 0x800:
                b = bytes([0xC0 | cp >> 6, 0x80 | cp & 63])
            elif form == 3 and cp < 0x10000:
                b = bytes([0xE0 | cp >> 12, 0x80 | cp >> 6 & 63, 0x80 | cp & 63])
            elif form == 4:
                b = bytes([0xF0 | cp >> 18, 0x80 | cp >> 12 & 63, 0x80 | cp >> 6 & 63, 0x80 | cp & 63])
            else:
                continue
            for before in (b'', b'x', b'\xe2\x82\xac'):
                out += places(before + b, True)
                out += places(before + b + b'y', True)
    # characters that text handling likes to treat specially, in every position of a name
    odd = [0, 9, 10, 13, 0x1B, 0x20, 0x22, 0x2E, 0x2F, 0x5C, 0x7F, 0x80, 0x85, 0xA0, 0xAD, 0x130, 0x131, 0xDF, 0x301, 0x17F, 0x1C5,
           0x200B, 0x200D, 0x200E, 0x202E, 0x2028, 0x2029, 0x2060, 0x3000, 0xFB01, 0xFE0F, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
           0x1F600, 0x1FFFE, 0xE0001, 0xF0000, 0x10FFFE, 0x10FFFF]
    for cp in odd:
        c = chr(cp).encode()
        for t in (c, c + b'a', b'a' + c, b'a' + c + b'a', c + c, b'e' + c, b' ' + c):
            out += places(t, True)
    # every pair of ASCII characters is somewhere in here, and pairs of odd ones
    pairs = ''.join(chr(a) + chr(b) for a in range(128) for b in range(a, 128)) + '\x00'
    for k in range(0, len(pairs), 1200):
        out += places(pairs[k:k + 1201].encode(), True)
        out += places(pairs[k:k + 1201][::-1].encode())
    for a in odd + [0x61, 0x41, 0x65]:
        for b in odd + [0x61, 0x41, 0x65]:
            t = (chr(a) + chr(b)).encode()
            out += places(t)
            out += places(b'a' + t + b'a')
    for t in ('', ' ', 'memory', 'name', 'main', '_start', '__proto__', 'a' * 255, '..', '/', 'C:\\x', '%00', '&amp;', '\\n', '\\u0000',
              '\x00\x00', 'e\u0301', '\u00e9', '\u1100\u1161', '\uac00', '\u0130', 'İi̇', 'ſs', '\u1e9e', '\ufb01fi', '\u2126\u03a9', '\u212b\u00c5'):
        out += places(t.encode(), True)
    for t in words.TEXTS:
        for x in (t, t + 'a', 'a' + t, t + t):
            out += places(x.encode(), True)
    for c in words.near(0, 0x10FFFF):
        if not 0xD800 <= c < 0xE000:
            out += places(chr(c).encode(), True)
    # scalar values in order: all of them in the thorough tier, otherwise a sample of the blocks
    blocks = [[c for c in range(a, a + 64) if not 0xD800 <= c < 0xE000] for a in range(0, 0x110000, 64)]
    for cs in run.pick([b for b in blocks if b], 900):
        out.append(Case('string', name(''.join(map(chr, cs)))))
        for c in rng.sample(cs, 4):
            out.append(Case('string', name(chr(c))))
    for c in range(0x800 if not run.thorough else 0x3000):
        out.append(Case('string', name(chr(c))))
    # announced lengths that cut or overrun
    for _ in range(200):
        t = text(rng)
        for k in range(len(t) + 3):
            out.append(Case('string', u(k) + t))
            out.append(Case('module', MAGIC + section(0, u(k) + t)))
            out.append(Case('export', u(k) + t + b'\x00\x01'))
            out.append(Case('import', u(k) + t + b'\x00\x02\x00\x01'))
    for k in [100, 127, 128, 129, 255, 256, 1000, 4096] + ([16384] if run.thorough else []) + words.near(5, 20000):
        for ch in (b'q', 'é'.encode(), '€'.encode(), '😀'.encode()):
            t = (ch * k)[:k]
            for d in (-1, 0, 1):
                out.append(Case('string', u(k + d) + t))
            out.append(Case('module', MAGIC + section(0, name(t))))
            if ch == b'q':
                out += places(t, True)
    for _ in range(20000 if run.thorough else 2500):
        t = bytearray(text(rng, rng.randrange(1, 8)))
        if t and rng.random() < 0.7:
            t[rng.randrange(len(t))] = rng.choice([rng.randrange(256), 0x80, 0xBF, 0xC0, 0xED, 0xF4, 0xF5])
        out += list(places(bytes(t)))[:2]
    run.check('names', out, kinds=True)
