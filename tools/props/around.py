"""The same code and declarations in other surroundings, in which the same rules hold."""

from core import Case
from wasm import *
import words

RANK = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 10: 10, 11: 11}

# sizes that the library's sources mention
DEPTHS = words.near(1, 40) or [1]
COUNTS = words.near(1, 300) or [1]


def number(b, p):
    v = k = 0
    while True:
        c = b[p]
        v |= (c & 127) << k
        k += 7
        p += 1
        if c < 128:
            return v, p


class Opened:
    """A module as a list of sections; raises IndexError or ValueError when it has no such shape."""

    def __init__(self, data):
        if data[:8] != MAGIC:
            raise ValueError
        self.secs, p = [], 8
        while p < len(data):
            i = data[p]
            n, p = number(data, p + 1)
            if p + n > len(data):
                raise ValueError
            self.secs.append([i, data[p:p + n]])
            p += n
        self.types = []
        t = self.find(1)
        if t:
            n, p = number(t[1], 0)
            for _ in range(n):
                k, p = number(t[1], p + 1)
                q = p + k
                r, e = number(t[1], q)
                self.types.append((t[1][p:q], t[1][e:e + r]))
                p = e + r
        self.decl = []
        t = self.find(3)
        if t:
            n, p = number(t[1], 0)
            for _ in range(n):
                i, p = number(t[1], p)
                self.decl.append(i)
        self.bodies = []
        t = self.find(10)
        if t:
            n, p = number(t[1], 0)
            for _ in range(n):
                k, p = number(t[1], p)
                self.bodies.append(t[1][p:p + k])
                p += k
            if p != len(t[1]):
                raise ValueError

    def find(self, i):
        return next((s for s in self.secs if s[0] == i), None)

    def append(self, i, items):
        """More entries at the end of a section, which is made if there is none."""
        s = self.find(i)
        if s is None:
            at = next((k for k, x in enumerate(self.secs) if x[0] > i), len(self.secs))
            self.secs.insert(at, [i, vec(items)])
        else:
            n, p = number(s[1], 0)
            s[1] = u(n + len(items)) + s[1][p:] + b''.join(items)

    def results(self, k):
        """What function k leaves."""
        i = self.decl[k] if k < len(self.decl) else -1
        return list(self.types[i][1]) if 0 <= i < len(self.types) else []

    def bytes(self):
        s = self.find(10)
        if s is not None and self.bodies:
            s[1] = vec(sized(b) for b in self.bodies)
        return MAGIC + b''.join(section(i, c) for i, c in self.secs)


def skipped(b, p):
    """The position after a constant expression of a valid module."""
    while b[p] != 0x0B:
        op, p = b[p], p + 1
        if op in (0x41, 0x42, 0x23):
            _, p = number(b, p)
        elif op in (0x43, 0x44):
            p += 4 if op == 0x43 else 8
        else:
            raise ValueError
    return p + 1


def contexts(data):
    """What the code of a valid module may refer to, and its code: one (context, code) for each function."""
    m = Opened(data)
    funcs, globs, ntab, nmem = [], [], 0, 0
    b = (m.find(2) or [2, b'\0'])[1]
    n, p = number(b, 0)
    for _ in range(n):
        for _ in range(2):
            k, p = number(b, p)
            p += k
        kind, p = b[p], p + 1
        if kind == 0:
            i, p = number(b, p)
            funcs.append(i)
        elif kind == 3:
            globs.append((b[p], b[p + 1]))
            p += 2
        else:
            p += 1 if kind == 1 else 0
            two, p = b[p], p + 1
            for _ in range(1 + two):
                _, p = number(b, p)
            ntab, nmem = ntab + (kind == 1), nmem + (kind == 2)
    for i in (4, 5):
        n = number((m.find(i) or [i, b'\0'])[1], 0)[0]
        ntab, nmem = ntab + (n if i == 4 else 0), nmem + (n if i == 5 else 0)
    b = (m.find(6) or [6, b'\0'])[1]
    n, p = number(b, 0)
    for _ in range(n):
        globs.append((b[p], b[p + 1]))
        p = skipped(b, p + 2)
    types = [(list(a), list(r)) for a, r in m.types]
    base = {'types': types, 'funcs': [types[i] for i in funcs + m.decl], 'ntab': ntab, 'nmem': nmem, 'globs': globs}
    out = []
    for i, x in zip(m.decl, m.bodies):
        head, code = split(x)
        runs, (n, p) = [], number(head, 0)
        for _ in range(n):
            k, p = number(head, p)
            if k:
                runs.append((head[p], k))
            p += 1
        out.append((dict(base, locals=[(t, 1) for t in types[i][0]] + runs, ret=types[i][1]), code))
    return out


def split(b):
    """Locals and code of a body."""
    n, p = number(b, 0)
    for _ in range(n):
        _, p = number(b, p)
        p += 1
    return b[:p], b[p:]


def wrap(rng, code, ret):
    """Code that leaves the same as `code` does, and is right when it is."""
    bt = bytes(ret) if len(ret) == 1 else bytes([VOID])
    vals = b''.join(const(t) for t in ret)
    k = rng.randrange(16)
    if k <= 2:
        return b'\x02' + bt + code + b'\x0b'
    if k <= 4:
        return b'\x03' + bt + code + b'\x0b'
    if k <= 6:
        return b'\x41\0\x04' + bt + code + b'\x05' + rng.choice([vals, b'\x00']) + b'\x0b'
    if k <= 8:
        return b'\x41\0\x04' + bt + rng.choice([vals, b'\x00']) + b'\x05' + code + b'\x0b'
    if k == 9:
        return b'\x02' + bt + const(rng.choice(TYPES)) * rng.choice([1, 2, 9]) + code + b'\x0c\0\x0b'
    if k <= 11:
        n = rng.choice([1, 1, 2, 3, 17, rng.choice(COUNTS)])
        t = const(rng.choice(TYPES)) * n
        return t + code + b'\x1a' * n if not ret else t + b'\x1a' * n + code
    if k == 12:
        return b'\x01' * rng.choice([1, 5, 130, rng.choice(COUNTS)]) + code
    if k == 13:
        return b'\x02\x40\x00\x0b' + code
    if k == 14:
        return b'\x02\x7e' + const(I64) + b'\x0c\0\x0b\x1a' + code
    return rng.choice([b'\x02' + bt + b'\x00' + code + b'\x0b', b'\x02\x40' + const(F32) + b'\x1a\x0b' + code])


def nest(rng, code, ret):
    for _ in range(rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 12, 20, rng.choice(DEPTHS)])):
        code = wrap(rng, code, ret)
    return code


def changed(rng, data):
    """The module with something else around its parts; None if it cannot be taken apart."""
    try:
        m = Opened(data)
        for k in rng.sample(range(10), rng.choice([1, 1, 2, 3])) + ([0] if rng.random() < 0.6 else []):
            if k <= 1:
                for i in range(len(m.bodies)):
                    if len(m.bodies) < 3 or rng.random() < 0.5:
                        head, code = split(m.bodies[i])
                        if code[-1:] == b'\x0b':
                            m.bodies[i] = head + nest(rng, code[:-1], m.results(i)) + b'\x0b'
            elif k == 2 and m.bodies:
                i = rng.randrange(len(m.bodies))
                head, code = split(m.bodies[i])
                n, p = number(head, 0)
                more = [(rng.choice([0, 1, 2, 200, rng.choice(COUNTS)]), rng.choice(TYPES)) for _ in range(rng.choice([1, 2, 5, rng.choice(DEPTHS)]))]
                m.bodies[i] = u(n + len(more)) + head[p:] + b''.join(u(c) + bytes([t]) for c, t in more) + code
            elif k == 3 and m.bodies and len(m.bodies) == len(m.decl):
                n = rng.choice([1, 1, 2, 5, 70, rng.choice(COUNTS)])
                t = rng.choice([([], []), ([I64, F32], [F32]), ([F64] * 5, [I32])])
                m.append(1, [functype(*t)])
                m.append(3, [u(len(m.types))] * n)
                m.types.append((bytes(t[0]), bytes(t[1])))
                m.decl += [len(m.types) - 1] * n
                m.bodies += [b'\x00' + b''.join(const(x) for x in t[1]) + b'\x0b'] * n
            elif k == 4:
                more = [([rng.choice(TYPES)] * rng.randrange(4), [rng.choice(TYPES)] * rng.randrange(2)) for _ in range(rng.choice([1, 2, 5, 140, rng.choice(COUNTS)]))]
                m.append(1, [functype(*t) for t in more])
                m.types += [(bytes(a), bytes(b)) for a, b in more]
            elif k == 5:
                m.append(6, [globaltype(t, rng.randrange(2)) + const(t, 3) + b'\x0b' for t in rng.choices(TYPES, k=rng.choice([1, 2, 140, rng.choice(COUNTS)]))])
            elif k == 6:
                for _ in range(rng.choice([1, 2, 6, rng.choice(DEPTHS)])):
                    m.secs.insert(rng.randrange(len(m.secs) + 1), [0, name(rng.choice(['', 'name', 'x', rng.choice(words.TEXTS)])) + bytes(rng.randrange(256) for _ in range(rng.randrange(9)))])
            elif k == 7 and m.find(5):
                s = m.find(5)
                if s[1][:1] == b'\x01':
                    s[1] = vec([limits(*rng.choice([(0,), (0, 0), (1, 1), (1,), (65536,), (0, 65536), (65536, 65536), (300, 301)]))])
            elif k == 8 and m.find(4):
                s = m.find(4)
                if s[1][:1] == b'\x01':
                    s[1] = vec([table(*rng.choice([(0,), (0, 0), (1, 1), (2**32 - 1,), (0, 2**32 - 1), (65537, 65538)]))])
            elif k == 9 and m.find(7):
                n = number(m.find(7)[1], 0)[0]
                s = m.find(6)
                if n and s:
                    m.append(7, [export('more %d' % i, 3, 0) for i in range(rng.choice([1, 2, 130, rng.choice(COUNTS)]))])
        return m.bytes()
    except (IndexError, ValueError):
        return None


def surroundings(run, quick, thorough=None, kind='module', most=60000):
    """Inputs this check has used so far, moved."""
    rng, out = run.rng, []
    n = (thorough or quick * 8) if run.thorough else quick
    for pool in run.pool:
        pool = [d for d in pool if len(d) < most]
        for _ in range(n // 2 if pool else 0):
            d = changed(rng, rng.choice(pool))
            if d is not None:
                out.append(Case(kind, d, nt=1))
    run.check('other surroundings', out)
