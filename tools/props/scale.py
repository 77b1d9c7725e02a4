"""Modules that are large in one direction at a time, and entries that repeat."""

from core import Case
from wasm import *
import words

VOIDF = functype([], [])
END = b'\x0b'


def one(code=END, runs=(), types=(VOIDF,), before=b'', after=b'', ti=0):
    """A module with a single function."""
    return (MAGIC + section(1, vec(types)) + section(3, vec([u(ti)])) + before
            + section(10, vec([body(code, runs)])) + after)


def bytes_long(rng, n):
    """About n bytes in one place, each place in turn."""
    mem = section(5, vec([limits(1)]))
    fill = bytes(rng.randrange(128) for _ in range(64)) * (n // 64 + 1)
    text = fill[:n]
    raw = bytes(b ^ 0x80 if i % 3 else b for i, b in enumerate(text))
    yield 'data', MAGIC + mem + section(11, vec([u(0) + const(I32) + END + name(raw)]))
    yield 'data, twice', MAGIC + mem + section(11, vec([u(0) + const(I32) + END + name(raw), u(0) + const(I32, 7) + END + name(raw[::-1])]))
    yield 'custom', MAGIC + section(0, name('c') + raw) + section(1, vec([VOIDF])) + section(0, name('d') + raw[:9])
    yield 'custom name', MAGIC + section(0, name(text) + b'x') + mem
    yield 'import name', MAGIC + section(2, vec([name('a') + name(text) + b'\x03\x7f\0', name(text) + name('b') + b'\x03\x7e\x01']))
    yield 'export name', MAGIC + mem + section(7, vec([export(text.decode(), 2, 0), export('', 2, 0)]))
    yield 'parameters', MAGIC + section(1, vec([functype([TYPES[b % 4] for b in text], [F32]), VOIDF]))
    for runs in ([(n, I64)], [(1, I32), (n, I64), (1, F32)], [(n, I32), (n + 1, F64), (0, I64), (n, I32)], [(n, F64), (1, F64)]):
        total = sum(k for k, _ in runs)
        first = runs[0][0]
        at = {'first': (0, runs[0][1]), 'last': (total - 1, [t for k, t in runs if k][-1]),
              'edge': (first - 1, runs[0][1]), 'over': (total, I32)}
        for what, (i, t) in at.items():
            for w in (t, I32 if t == I64 else I64):
                yield 'locals, ' + what, one(b'\x20' + u(i) + b'\x21' + u(i) + const(w) + b'\x21' + u(i) + END, runs)


def entries_many(rng, n):
    """About n entries in one section, the last of them used, and one past it."""
    fill = [functype([TYPES[i % 4]] * (i % 3), [TYPES[i // 4 % 4]] * (i % 2)) for i in range(n)]
    for d in (-1, 0, 1):
        k = n - 1 + d
        yield 'types', one(b'\x00' + END, ti=k, types=fill)
        yield 'imports', (MAGIC + section(1, vec([VOIDF, functype([I32], [])])) + section(2, vec(
            [imp_func('m', str(i % 7), i % 2) for i in range(n)])) + section(8, u(k)))
        yield 'imported globals', (MAGIC + section(2, vec([imp_global('', str(i % 5), TYPES[i % 4], i % 3 == 0) for i in range(n)]))
                                   + section(6, vec([globaltype(TYPES[k % 4], 0) + b'\x23' + u(k) + END])))
        yield 'globals', one(b'\x23' + u(k) + b'\x24' + u(k) + END, before=section(6, vec(
            [globaltype(TYPES[i % 4], 1) + const(TYPES[i % 4], i) + END for i in range(n)])))
        yield 'functions', (MAGIC + section(1, vec([VOIDF, functype([], [I64])])) + section(3, vec([u(i % 2) for i in range(n)]))
                            + section(7, vec([export('last', 0, k)]))
                            + section(10, vec([body(const(I64, i) + END if i % 2 else b'\x10' + u(k) + b'\x1a' * (k % 2) + END)
                                               for i in range(n)])))
    mem = section(5, vec([limits(1, 2)]))
    for last in ('last', 'x0', 'x%d' % (n // 2)):
        yield 'exports', MAGIC + mem + section(7, vec([export('x%d' % i, 2, 0) for i in range(n)] + [export(last, 2, 0)]))
    tab = section(4, vec([table(0)]))
    for bad in (0, 1):
        off = const(I64 if bad else I32) + END
        yield 'element segments', (MAGIC + section(1, vec([VOIDF])) + section(3, vec([u(0)])) + tab + section(9, vec(
            [u(0) + const(I32, i) + END + vec([u(0)] * (i % 3)) for i in range(n)] + [u(0) + off + vec([u(0)])]))
            + section(10, vec([body(END)])))
        yield 'data segments', MAGIC + mem + section(11, vec(
            [u(0) + const(I32, i) + END + name(bytes([i % 256] * (i % 4))) for i in range(n)] + [u(0) + off + name(b'z')]))
        yield 'element functions', (MAGIC + section(1, vec([VOIDF])) + section(3, vec([u(0)])) + tab + section(9, vec(
            [u(0) + const(I32) + END + vec([u(0)] * n + [u(bad)])])) + section(10, vec([body(END)])))
        yield 'runs of locals', one(b'\x20' + u(n + bad) + b'\x1a' + END, [(1, TYPES[i % 4]) for i in range(n + 1)])
        yield 'labels', one(b'\x02\x40\x41\0\x0e' + vec([u(i % 2) for i in range(n)] + [u(2 * bad)]) + u(1) + END + END)
        yield 'operands', one(b'\x41\0' * n + b'\x1a' * (n - bad) + END)
        yield 'instructions', one(b'\x01\x42\x05\x1a' * n + b'\x1a' * bad + END)
        yield 'blocks', one(b'\x02\x40\x0b\x03\x7e\x42\x01\x0b\x1a' * n + b'\x6a' * bad + END)
        yield 'parameters', one(b'\x20' + u(n - 1 + bad) + b'\x1a' + END, types=[functype([TYPES[i % 4] for i in range(n)], [])])
        yield 'arguments', one(b''.join(const(TYPES[i % 4]) for i in range(n)) + b'\x10\0' + b'\x1a' * bad + END, ti=1,
                               types=[functype([TYPES[i % 4] for i in range(n)], []), VOIDF],
                               before=b'').replace(section(3, vec([u(1)])), section(2, vec([imp_func('f', 'g', 0)])) + section(3, vec([u(1)])))
    yield 'customs', MAGIC + section(0, name('c') + b'1') * n + section(1, vec([VOIDF])) + section(0, name('') + b'\x0b') * n
    yield 'sections', MAGIC + b''.join(section(0, name(str(i))) for i in range(n)) + section(1, vec([VOIDF])) + section(1, vec([VOIDF]))


def large(run, n=(70000,), m=(300,)):
    rng, out = run.rng, []
    n, m = list(n), list(m)
    if n:
        n += run.pick(words.near(60, 70000), 16, 40)
    if m:
        m += run.pick(words.near(5, 1000), 20, 60)
    for k in n:
        out += [Case('module', d, note='%s: %d bytes' % (w, k)) for w, d in bytes_long(rng, k)]
    for k in m:
        out += [Case('module', d, note='%s: %d entries' % (w, k)) for w, d in entries_many(rng, k)]
    return out


def repeats(rng, m):
    """Changes the lists of entries of a generated module: some entries twice, moved or gone."""
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.choice([i for i in m.parts if m.parts[i]] or [1])
        p = list(m.parts[i])
        if p:
            j = rng.randrange(len(p))
            k = rng.randrange(6)
            if k <= 2:
                p[j:j] = [p[j]] * rng.choice([1, 1, 2, 5])
            elif k == 3:
                p.append(p[j])
            elif k == 4:
                del p[j]
            else:
                h = rng.randrange(len(p))
                p[h], p[j] = p[j], p[h]
            if i in (3, 10) and rng.random() < 0.8:        # mostly keep declarations and bodies in step
                o = 13 - i
                if len(m.parts[o]) < len(p):
                    m.parts[o] = m.parts[o] + [m.parts[o][-1] if m.parts[o] else p[-1]] * (len(p) - len(m.parts[o]))
                m.parts[o] = m.parts[o][:len(p)]
        m.parts[i] = p
    return m
