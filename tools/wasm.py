"""Encoding of WebAssembly 1.0 modules, for generating inputs.

Nothing in here decides what is right: it only writes bytes. Whether they are well-formed and valid
is for the specification to say.
"""

I32, I64, F32, F64 = 0x7F, 0x7E, 0x7D, 0x7C
VOID = 0x40
TYPES = (I32, I64, F32, F64)


def u(n, pad=0):
    """Unsigned LEB-128, with `pad` redundant groups."""
    out = []
    while True:
        b = n & 0x7F
        n >>= 7
        if n == 0 and pad == 0:
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)
        if n == 0:
            pad -= 1


def s(n, pad=0):
    """Signed LEB-128, with `pad` redundant groups."""
    out = []
    while True:
        b = n & 0x7F
        n >>= 7
        done = (n == 0 and not b & 0x40) or (n == -1 and b & 0x40)
        if done and pad == 0:
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)
        if done:
            pad -= 1


def vec(items):
    items = list(items)
    return u(len(items)) + b''.join(items)


def name(x):
    if isinstance(x, str):
        x = x.encode()
    return u(len(x)) + x


def sized(b):
    return u(len(b)) + b


def section(i, content):
    return bytes([i]) + sized(content)


def functype(params, results):
    return b'\x60' + u(len(params)) + bytes(params) + u(len(results)) + bytes(results)


def limits(lo, hi=None):
    return (b'\x00' + u(lo)) if hi is None else (b'\x01' + u(lo) + u(hi))


def table(lo, hi=None):
    return b'\x70' + limits(lo, hi)


def globaltype(t, mut):
    return bytes([t, mut])


def imp_func(m, n, ti):
    return name(m) + name(n) + b'\x00' + u(ti)


def imp_table(m, n, lo, hi=None):
    return name(m) + name(n) + b'\x01' + table(lo, hi)


def imp_mem(m, n, lo, hi=None):
    return name(m) + name(n) + b'\x02' + limits(lo, hi)


def imp_global(m, n, t, mut):
    return name(m) + name(n) + b'\x03' + globaltype(t, mut)


def export(n, kind, i):
    return name(n) + bytes([kind]) + u(i)


def local_runs(runs):
    return vec(u(n) + bytes([t]) for n, t in runs)


def body(code, runs=()):
    """A function body: `code` includes the final end."""
    return sized(local_runs(runs) + code)


def const(t, n=0):
    if t == I32:
        return b'\x41' + s(n)
    if t == I64:
        return b'\x42' + s(n)
    if t == F32:
        return b'\x43' + (n & 0xFFFFFFFF).to_bytes(4, 'little')
    return b'\x44' + (n & 0xFFFFFFFFFFFFFFFF).to_bytes(8, 'little')


MAGIC = b'\0asm\x01\0\0\0'


def module(types=None, imports=None, funcs=None, tables=None, mems=None, globals=None,
           exports=None, start=None, elems=None, code=None, datas=None):
    """A module from lists of encoded entries; None leaves the section out."""
    out = MAGIC
    parts = [(1, types), (2, imports), (3, funcs), (4, tables), (5, mems), (6, globals), (7, exports),
             (8, start), (9, elems), (10, code), (11, datas)]
    for i, p in parts:
        if p is None:
            continue
        out += section(i, p if i == 8 else vec(p))
    return out


# Generation tables: opcode -> (params, results), for instructions without control effect.
SIG = {}


def _sig():
    def put(ops, p, r):
        for o in ops:
            SIG[o] = (p, r)
    put([0x45], [I32], [I32])
    put(range(0x46, 0x50), [I32, I32], [I32])
    put([0x50], [I64], [I32])
    put(range(0x51, 0x5B), [I64, I64], [I32])
    put(range(0x5B, 0x61), [F32, F32], [I32])
    put(range(0x61, 0x67), [F64, F64], [I32])
    for base, nu, nb, t in ((0x67, 3, 15, I32), (0x79, 3, 15, I64), (0x8B, 7, 7, F32), (0x99, 7, 7, F64)):
        put(range(base, base + nu), [t], [t])
        put(range(base + nu, base + nu + nb), [t, t], [t])
    cv = [(0xA7, I64, I32), (0xA8, F32, I32), (0xA9, F32, I32), (0xAA, F64, I32), (0xAB, F64, I32),
          (0xAC, I32, I64), (0xAD, I32, I64), (0xAE, F32, I64), (0xAF, F32, I64), (0xB0, F64, I64),
          (0xB1, F64, I64), (0xB2, I32, F32), (0xB3, I32, F32), (0xB4, I64, F32), (0xB5, I64, F32),
          (0xB6, F64, F32), (0xB7, I32, F64), (0xB8, I32, F64), (0xB9, I64, F64), (0xBA, I64, F64),
          (0xBB, F32, F64), (0xBC, F32, I32), (0xBD, F64, I64), (0xBE, I32, F32), (0xBF, I64, F64)]
    for o, a, b in cv:
        put([o], [a], [b])


_sig()
LOADS = {0x28: (I32, 2), 0x29: (I64, 3), 0x2A: (F32, 2), 0x2B: (F64, 3), 0x2C: (I32, 0), 0x2D: (I32, 0),
         0x2E: (I32, 1), 0x2F: (I32, 1), 0x30: (I64, 0), 0x31: (I64, 0), 0x32: (I64, 1), 0x33: (I64, 1),
         0x34: (I64, 2), 0x35: (I64, 2)}
STORES = {0x36: (I32, 2), 0x37: (I64, 3), 0x38: (F32, 2), 0x39: (F64, 3), 0x3A: (I32, 0), 0x3B: (I32, 1),
          0x3C: (I64, 0), 0x3D: (I64, 1), 0x3E: (I64, 2)}
