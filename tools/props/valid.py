"""C13-C21: which modules are accepted."""

import itertools
import json

from core import Case, ToolError
from wasm import *
import gen
import words
from . import scale
from .around import surroundings

VOIDF = functype([], [])
RETS = [[], [I32], [I64], [F32], [F64]]

# the context in which generated bodies are placed: everything there is one of
CALLEES = [([], []), ([I32], [I32]), ([I64, F32], [F64]), ([], [I64]), ([F64, I32], []), ([I32, I32], [I32])]
GLOBALS = [(I32, 1), (I64, 1), (F32, 1), (F64, 1), (I32, 0), (F64, 0)]
LOCALS = list(TYPES)
CTYPES = [([], r) for r in RETS] + CALLEES


class Host:
    """A module around generated bodies, split into a prelude and a code section."""

    def __init__(self, ret, params=(), runs=None, nmem=1, ntab=1, callees=CALLEES, globs=GLOBALS):
        self.ret, self.params = list(ret), list(params)
        self.runs = [(1, t) for t in LOCALS] if runs is None else runs
        self.nmem, self.ntab, self.callees, self.globs = nmem, ntab, callees, globs
        self.types = [([], r) for r in RETS] + list(callees) + [(self.params, self.ret)]

    def prelude(self, n):
        t = self.types
        d = MAGIC + section(1, vec(functype(p, q) for p, q in t))
        d += section(2, vec([imp_func('h', str(i), len(RETS) + i) for i in range(len(self.callees))]
                            + [imp_global('h', 'g%d' % i, x, mt) for i, (x, mt) in enumerate(self.globs)]))
        d += section(3, vec([u(len(t) - 1)] * n))
        if self.ntab:
            d += section(4, vec([table(10)]))
        if self.nmem:
            d += section(5, vec([limits(1)]))
        return d

    def code(self, bodies):
        return section(10, vec(body(b, self.runs) for b in bodies))

    def context(self, n=1):
        return {'types': self.types, 'funcs': list(self.callees) + [(self.params, self.ret)] * n, 'ntab': self.ntab,
                'nmem': self.nmem, 'globs': self.globs,
                'locals': [(t, 1) for t in self.params] + [(t, k) for k, t in self.runs if k], 'ret': self.ret}


def ins(op, bt=VOID, *n):
    return {'op': op, 'bt': bt, 'n': list(n)}


def encode(i):
    op, n = i['op'], i['n']
    o = bytes([op])
    if op in (2, 3, 4):
        return o + bytes([i['bt']])
    if op in (0x41, 0x42, 0x43, 0x44):
        return const({0x41: I32, 0x42: I64, 0x43: F32, 0x44: F64}[op], 1)
    if op == 0x0E:
        return o + vec(u(x) for x in n[:-1]) + u(n[-1])
    return o + b''.join(u(x) for x in n)


CONSTS = [ins(0x41), ins(0x42), ins(0x43), ins(0x44)]
PLAIN = [ins(o) for o in sorted(SIG)] + CONSTS + [ins(0x1A), ins(0x1B)]
LOCAL = {t: i for i, t in enumerate(LOCALS)}


def take(t):
    """Takes an operand of exactly type t."""
    return b'\x1a' if t == 0 else b'\x21' + u(LOCAL[t])


class Probe:
    """Bodies that tell whether the validator is in the state the specification is in."""

    def __init__(self, state):
        self.opds, self.ctrls = state['opds'], state['ctrls']

    def close(self, first=None, extra=b'', skip=False, more=None, stop=None):
        """Takes every operand with its type, leaves every construct properly.

        Deviations at the innermost construct: `first` (position, type) takes one operand as another
        type, `extra` is executed when the operands are gone, `skip` leaves out the results, `more`
        adds one operand too many.
        """
        code = b''
        opds = list(self.opds)
        for d, f in enumerate(reversed(self.ctrls)):
            inner = d == 0
            above = opds[f['h']:]
            for k, t in enumerate(reversed(above)):
                if inner and first and first[0] == k:
                    code += take(first[1])
                    first = None
                else:
                    code += take(t)
            if inner:
                code += extra
            elif f['dead']:
                code += b'\x1a'
            if not (inner and skip):
                for t in f['out']:
                    code += const(t)
            if inner and more:
                code += const(more)
            if f['op'] == 4 and f['out']:
                code += b'\x05' + b''.join(const(t) for t in f['out'])
            code += b'\x0b'
            opds = opds[:f['h']] + list(f['out'])
        return code

    def good(self):
        inner = self.ctrls[-1]
        return self.close(extra=b'\x1a\x6a\x1a' if inner['dead'] else b'')

    def bad(self, rng, limit):
        """Bodies that must be rejected."""
        f = self.ctrls[-1]
        above = self.opds[f['h']:]
        out = []
        for k, t in enumerate(reversed(above)):
            if t:
                out += [self.close(first=(k, x)) for x in TYPES if x != t]
        if not f['dead']:
            out.append(self.close(extra=b'\x1a'))
            if f['out']:
                out.append(self.close(skip=True))
        out.append(self.close(more=rng.choice(TYPES)))
        for x in TYPES:
            if f['out'] and x != f['out'][0]:
                out.append(self.close(skip=True, extra=const(x)))
        return out if len(out) <= limit else rng.sample(out, limit)


def hopeless(ctrls, i):
    """Whatever was wrong before, this ends the constructs without adding another fault."""
    ctrls = [dict(c) for c in ctrls]
    if i['op'] in (2, 3):
        ctrls.append({'op': i['op'], 'out': []})
    elif i['op'] == 4:
        ctrls.append({'op': 4, 'out': [1] if i['bt'] != VOID else []})
    elif i['op'] == 5:
        ctrls[-1]['op'] = 5
    elif i['op'] == 0x0B:
        ctrls.pop()
    code = b''
    for f in reversed(ctrls):
        code += b'\x00' + (b'\x05\x00' if f['op'] == 4 else b'') + b'\x0b'
    return code


class Walks:
    """Long ways through the states the specification explored.

    The path written out with a transition is a shortest one. An implementation may remember more
    than the specification does, so states are also reached in roundabout ways.
    """

    def __init__(self, rng, host, es):
        self.rng, self.next = rng, {}
        self.first = {'ok': True, 'opds': [], 'ctrls': [{'op': 0, 'lab': host.ret, 'out': host.ret, 'h': 0, 'dead': False}]}
        at = {(): self.key(self.first)}
        for e in es:
            at[tuple(e['p'])] = self.key(e['v'])
        for e in es:
            self.next.setdefault(at[tuple(e['p'][:-1])], []).append((e['p'][-1], e['v']))

    @staticmethod
    def key(v):
        return json.dumps([v['opds'], v['ctrls']])

    def walk(self, length):
        """Instructions, the state before the last one, and the state reached, which is wrong at times."""
        path, before, v = [], None, self.first
        for k in range(length):
            out = self.next.get(self.key(v), [])
            good = [x for x in out if x[1]['ok'] and self.key(x[1]) in self.next]
            last = k == length - 1 or not good
            if last and out:
                good = out
            if not good:
                break
            i, w = self.rng.choice(good)
            path.append(i)
            before, v = v, w
            if last:
                break
        return path, before, v


def explore(run, what, host, alphabet, height, depth, negatives=2, edges=6000, group=24, timeout=600, walks=None):
    """Every transition of the validator within the bounds, replayed on the library with probes."""
    rng = run.rng
    cfg = {'ctx': host.context(), 'alphabet': alphabet, 'height': height, 'depth': depth}
    es = run.emit('GenBody', cfg, timeout=timeout)
    states = {(): {'ok': True, 'opds': [], 'ctrls': [{'op': 0, 'lab': host.ret, 'out': host.ret, 'h': 0, 'dead': False}]}}
    for e in es:
        states[tuple(e['p'])] = e['v']
    enc = [encode(i) for i in alphabet]
    run.extra['edges'] = run.extra.get('edges', 0) + len(es)
    chosen = run.pick(es, edges)
    run.extra['edges_replayed'] = run.extra.get('edges_replayed', 0) + len(chosen)
    pre = [host.prelude(1), host.prelude(group)]
    good, cases = [], []
    for e in chosen:
        p, v = e['p'], e['v']
        code = b''.join(enc[i - 1] for i in p)
        if v['ok'] and not v['ctrls']:
            good.append(code)
        elif v['ok']:
            pr = Probe(v)
            good.append(code + pr.good())
            for b in pr.bad(rng, negatives):
                cases.append(Case('module', host.code([code + b]), 1, 1, note=what))
        else:
            src = states[tuple(p[:-1])]
            cases.append(Case('module', host.code([code + hopeless(src['ctrls'], alphabet[p[-1] - 1])]), 1, 1, note=what))
    ways = Walks(rng, host, es)
    for _ in range(len(chosen) // 3 if walks is None else walks):
        p, before, v = ways.walk(rng.randint(4, 16))
        code = b''.join(enc[i - 1] for i in p)
        if v['ok'] and not v['ctrls']:
            good.append(code)
        elif v['ok']:
            pr = Probe(v)
            good.append(code + pr.good())
            for b in pr.bad(rng, negatives):
                cases.append(Case('module', host.code([code + b]), 1, 1, note=what))
        else:
            cases.append(Case('module', host.code([code + hopeless(before['ctrls'], alphabet[p[-1] - 1])]), 1, 1, note=what))
    rng.shuffle(good)
    while good and len(good) % group:
        good.append(rng.choice(good))
    for i in range(0, len(good), group):
        cases.append(Case('module', host.code(good[i:i + group]), 2, 1, note=what))
    run.check(what, cases, pre)


# ------------------------------------------------------------------------------------- instructions

def c13(run):
    rng = run.rng
    gets = [ins(0x20, VOID, i) for i in range(4)]
    if run.thorough:
        for ret in RETS:
            explore(run, 'operand stacks, result %s' % ret, Host(ret), PLAIN, 3, 1, 10, 10**9)
        explore(run, 'inside a block', Host([]), PLAIN + [ins(2, t) for t in (VOID, I32, F64)] + [ins(0x0B)], 2, 2, 5, 60000)
        explore(run, 'dead code', Host([]), PLAIN + [ins(0)], 2, 1, 10, 10**9)
        explore(run, 'taller stacks', Host([I32]), PLAIN, 4, 1, 4, 60000)
    else:
        explore(run, 'operand stacks', Host(rng.choice(RETS)), PLAIN, 3, 1, 3, 11500)
        explore(run, 'dead code', Host([]), PLAIN + [ins(0)], 1, 1, 3, 3000)
        explore(run, 'inside a block', Host([]), [i for i in PLAIN if rng.random() < 0.3] + CONSTS
                + [ins(2, I32), ins(0x0B), ins(0x1B), ins(0x1A)], 2, 2, 2, 3000)
    # each instruction with each combination of operands, and with too few; alone in its function
    host = Host([])
    cases, good = [], []
    for i in PLAIN:
        op = i['op']
        p, q = SIG.get(op, ([], []))
        n = {0x1A: 1, 0x1B: 3}.get(op, len(p))
        for have in range(n + 1):
            for ts in itertools.product(TYPES, repeat=have):
                code = b''.join(const(t) for t in ts) + encode(i)
                for below in (b'', const(rng.choice(TYPES))):
                    end = {0x1A: 0, 0x1B: 1}.get(op, len(q)) + (1 if below else 0)
                    c = below + code + b'\x1a' * end + b'\x0b'
                    cases.append(Case('module', host.code([c]), 1, 1))
        # the result, used as each type
        for t in TYPES:
            good = b''.join(const(x) for x in p) if op not in (0x1A, 0x1B) else const(I32) * n
            cases.append(Case('module', host.code([good + encode(i) + b'\x21' + u(LOCAL[t]) + b'\x0b']), 1, 1))
    run.check('operands of every instruction', cases, [host.prelude(1)])
    tall(run, 'tall stacks')
    mixed(run, 400, 3000)
    surroundings(run, 2500)


def tall(run, what, before=b''):
    """One instruction on a stack of each height, and then what is on top used as it is or as another type."""
    rng, cases = run.rng, []
    host = Host([])
    for n in list(range(3, 21)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] + run.pick(words.near(3, 300), 12, 60):
        for i in [ins(0x1A)] * 6 + [ins(0x1B)] * 6 + rng.choices(PLAIN, k=60 if run.thorough else 18):
            op = i['op']
            p, q = SIG.get(op, ([], []))
            t = rng.choice(TYPES)
            if op == 0x1A:
                p, q = [t], []
            elif op == 0x1B:
                p, q = [t, t, I32], [t]
            elif i in CONSTS:
                p, q = [], [{0x41: I32, 0x42: I64, 0x43: F32, 0x44: F64}[op]]
            if len(p) > n:
                continue
            stack = [rng.choice(TYPES) for _ in range(n - len(p))]
            code = b''.join(const(x) for x in stack + list(p)) + encode(i)
            stack += q
            top = stack[:-5:-1]
            for wrong in [None] + list(range(len(top))):
                use = [rng.choice([x for x in TYPES if x != y]) if k == wrong else y for k, y in enumerate(top)]
                cases.append(Case('module', host.code([before + code + b''.join(b'\x21' + u(LOCAL[x]) for x in use) + b'\x00\x0b']), 1, 1))
    run.check(what, run.pick(cases, 4000, 40000), [host.prelude(1)])


def mixed(run, quick, thorough, size=25, what='random functions', **kw):
    """Random functions, as generated and with a change in the code; one function to a module."""
    rng, out = run.rng, []
    for _ in range(thorough if run.thorough else quick):
        m = gen.Module(rng, size=size, nfuncs=rng.choice([1, 1, 2]), **kw)
        out.append(Case('module', m.bytes(customs=0), nt=1))
        for _ in range(6):
            k = rng.randrange(len(m.codes))
            runs, code = m.codes[k]
            c = gen.mutate_code(rng, code)
            if rng.random() < 0.3:
                c = gen.mutate_code(rng, c)
            keep = m.parts[10][k]
            m.parts[10][k] = body(b''.join(c), runs)
            out.append(Case('module', m.bytes(customs=0), nt=1))
            m.parts[10][k] = keep
    run.check(what, out)


# ------------------------------------------------------------------------------------------ control

def branches(depth, tables=True):
    a = []
    for n in range(depth + 1):
        a += [ins(0x0C, VOID, n), ins(0x0D, VOID, n)]
    if tables:
        for t in ([0], [1], [depth], [0, 0], [0, 1], [1, 0], [1, 1], [0, 0, 1], [2, 0, 1], [1, 2], [0, depth, 0]):
            a.append(ins(0x0E, VOID, *t))
    return a


CALLS = [ins(0x10, VOID, i) for i in range(len(CALLEES))] + [ins(0x11, VOID, 5 + i, 0) for i in range(len(CALLEES))]


def c14(run):
    rng = run.rng
    def blocks(bts):
        return [ins(o, bt) for o in (2, 3, 4) for bt in bts] + [ins(5), ins(0x0B)]
    base = [ins(0x41), ins(0x42), ins(0x1A), ins(0x0F)]
    if run.thorough:
        for ret in RETS[:3]:
            explore(run, 'two levels, result %s' % ret, Host(ret), blocks([VOID, I32, I64]) + base + branches(2) + CALLS, 2, 2, 6, 60000)
        explore(run, 'three levels', Host([I32]), blocks([VOID, I32]) + [ins(0x41), ins(0x1A), ins(0x0F)] + branches(3), 2, 3, 3, 120000, timeout=1500)
        explore(run, 'four levels', Host([]), [ins(2, I32), ins(3, VOID), ins(4, I32), ins(5), ins(0x0B), ins(0x41)] + branches(4), 1, 4, 2, 60000, timeout=1500)
        explore(run, 'calls', Host([]), CALLS + CONSTS + [ins(0x1A)], 3, 1, 8, 60000)
    else:
        explore(run, 'two levels', Host(rng.choice(RETS[:3])), blocks([VOID, I32, I64]) + base + branches(2) + CALLS[:3] + CALLS[6:9], 2, 2, 2, 7000)
        explore(run, 'three levels', Host(rng.choice([[], [I32]])), blocks([VOID, I32]) + [ins(0x41), ins(0x1A)] + branches(3, False)
                + [ins(0x0E, VOID, 0, 1), ins(0x0E, VOID, 2, 1), ins(0x0E, VOID, 3, 2, 1)], 1, 3, 2, 6000)
        explore(run, 'calls', Host([]), CALLS + CONSTS + [ins(0x1A)], 3, 1, 2, 2500)
    # without a table
    host = Host([], ntab=0)
    explore(run, 'no table', host, [ins(0x11, VOID, 5, 0), ins(0x11, VOID, 6, 0), ins(0x10, VOID, 0), ins(0x41), ins(0x1A)], 2, 1, 3, 3000)
    # functions of every type: what they leave, return and branch with
    cases, pre = [], []
    for r in RETS:
        h = Host(r)
        pre.append(h.prelude(1))
        k = len(pre)
        for n in range(3):
            for ts in itertools.product(TYPES, repeat=n):
                vals = b''.join(const(t) for t in ts)
                for end in (b'', b'\x0f', b'\x0c\0', b'\x02\x40\x0c\x01\x0b', b'\x41\0\x0d\0', b'\x41\0\x0e\x00\0', b'\x41\0\x0e\x01\0\0', b'\x0f\x41\0'):
                    cases.append(Case('module', h.code([vals + end + b'\x0b']), k, 1))
                for o in (2, 3, 4):
                    cnd = b'\x41\0' if o == 4 else b''
                    for bt in (VOID,) + TYPES:
                        els = b'\x05' + vals if o == 4 else b''
                        for tail in (b'', b'\x0f', b'\x0c\0', b'\x0c\x01'):
                            cases.append(Case('module', h.code([cnd + bytes([o, bt]) + vals + tail + els + tail + b'\x0b' + b'\x0b']), k, 1))
                            cases.append(Case('module', h.code([vals + cnd + bytes([o, bt]) + tail + els + b'\x0b' + b'\x0b']), k, 1))
                    if o == 4:
                        for bt in (VOID,) + TYPES:
                            cases.append(Case('module', h.code([cnd + bytes([4, bt]) + vals + b'\x0b' + b''.join(const(t) for t in r) + b'\x0b']), k, 1))
    cases = run.pick(cases, 9000)
    run.check('results of constructs', cases, pre)
    deep_branches(run)
    long_calls(run)
    mixed(run, 300, 3000)
    surroundings(run, 2500)


def deep_branches(run):
    """Branches across many levels, with mixed label types."""
    rng, cases = run.rng, []
    host = Host([I32])
    for n in [1, 2, 5, 30, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 200, 255, 256, 257] + words.near(3, 400):
        kinds = [(rng.choice([2, 3]), rng.choice([VOID, I32])) for _ in range(n)]
        head = b''.join(bytes(k) for k in kinds)
        far = {x + k for x in (0, n // 2, n) for k in ((2**8, 2**16, 2**24, 2**31) if n in (1, 2, 5, 64, 256) else ())}
        for d in sorted({0, 1, n // 2, n - 1, n, n + 1, n + 2, 127, 128, 255, 256} | far):
            lab = I32
            if d < n:
                o, bt = kinds[n - 1 - d]
                lab = VOID if o == 3 else bt
            for val in (b'', const(I32), const(I64)):
                for br in (b'\x0c' + u(d), b'\x41\0\x0e\x01' + u(d) + u(d), b'\x41\0\x0e\x00' + u(d)):
                    tail = b''
                    for o, bt in reversed(kinds):
                        tail += b'\x00\x0b'
                    cases.append(Case('module', host.code([head + val + br + tail + b'\x00\x0b']), 1, 1))
    for n in (1, 2, 3):                                                       # labels and callees that exist but for their upper bits
        for k in gen.LOST:
            for d in range(n + 1):
                for br in (b'\x0c' + u(d + k), b'\x41\0\x0d' + u(d + k), b'\x41\0\x0e\x01' + u(d + k) + u(d), b'\x41\0\x0e\x01' + u(d) + u(d + k)):
                    for val in (b'', const(I32)):
                        cases.append(Case('module', host.code([b'\x02\x40' * n + val + br + b'\x00\x0b' * n + b'\x00\x0b']), 1, 1))
            for call in (b'\x10' + u(k), b'\x10' + u(k + n), b'\x11' + u(k + n) + b'\0', b'\x11' + u(n) + u(k)):
                cases.append(Case('module', host.code([b'\x00' + call + b'\x00\x0b']), 1, 1))
    for n in [2, 3, 10, 127, 128, 129, 300] + words.near(4, 1000):           # branch tables whose targets differ in one place
        for o in range(3):
            targets = [1] * n
            if o:
                targets[rng.randrange(n)] = 0
            dflt = 0 if o == 2 else 1
            for inner in (I32, VOID, I64):
                c = bytes([2, I32, 2, inner]) + const(I32) + b'\x41\0\x0e' + vec(u(t) for t in targets) + u(dflt) + b'\x0b\x00\x0b\x0b'
                cases.append(Case('module', host.code([c]), 1, 1))
    # tables with one target that is missing, or has another label type, in each place, in live and dead code
    outer, unit = bytes([2, I32, 2, I32, 3, I32, 2, VOID]), b'\x00\x0b'
    for n in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 40, 130, 257] + words.near(7, 300):
        for at in sorted({0, 1, 2, 3, n // 2, n - 2, n - 1, n} & set(range(n + 1))) if n > 7 else range(n + 1):
            for good in (1, 2, 3, 4):
                for wrong in (good, 0, 1, 2, 3, 5, 6, rng.choice([7, 64, 127, 128, 255, 256, 2**31, 2**32 - 1])):
                    targets = [good if good < 2 else rng.choice([2, 3, 4]) for _ in range(n + 1)]
                    targets[at] = wrong
                    for val in (b'' if good < 2 else const(I32), rng.choice([b'\x00', const(I64), b'', const(I32)])):
                        c = outer + val + b'\x41\0\x0e' + vec(u(t) for t in targets[:-1]) + u(targets[-1]) + unit * 5
                        cases.append(Case('module', host.code([c]), 1, 1))
    run.check('branches over many levels', cases, [host.prelude(1)])


def long_calls(run):
    """Calls with many operands: right, one of another type, one missing, one too many."""
    rng, cases = run.rng, []
    for n in list(range(1, 18)) + [24, 31, 32, 33, 63, 64, 65, 127, 128, 129] + words.near(18, 300) + ([255, 256, 300] if run.thorough else []):
        for _ in range(3 if run.thorough else 1):
            p = [rng.choice(TYPES) for _ in range(n)]
            q = [rng.choice(TYPES)] if rng.random() < 0.6 else []
            at = range(n) if n <= 17 else sorted({0, 1, 7, 8, 15, 16, n // 2, n - 2, n - 1})
            args = [p, p[1:], p[:-1], [rng.choice(TYPES)] + p, p + [rng.choice(TYPES)], p[::-1]]
            for i in at:
                args.append(p[:i] + [rng.choice([t for t in TYPES if t != p[i]])] + p[i + 1:])
            for a in args:
                for indirect in (False, True):
                    vals = b''.join(const(t) for t in a)
                    call = b'\x41\0\x11\0\0' if indirect else b'\x10\0'
                    for dead in (False, True) if rng.random() < 0.3 else (False,):
                        use = b''.join({I32: b'\x45', I64: b'\x50', F32: b'\x8b', F64: b'\x99'}[t] + b'\x1a' for t in q)
                        code = (b'\x00' if dead else b'') + vals + call + use + b'\x0b'
                        cases.append(Case('module', MAGIC + section(1, vec([functype(p, q), VOIDF])) + section(2, vec([imp_func('m', 'f', 0)]))
                                          + section(3, vec([u(1)])) + section(4, vec([table(1)])) + section(10, vec([body(code)])), nt=1))
    run.check('calls with many operands', cases)


# -------------------------------------------------------------------------------------- dead code

def c15(run):
    rng = run.rng
    kill = [ins(0), ins(0x0C, VOID, 0), ins(0x0C, VOID, 1), ins(0x0F), ins(0x0E, VOID, 0), ins(0x0E, VOID, 0, 1)]
    some = [ins(o) for o in (0x6A, 0x7C, 0x92, 0xA0, 0x45, 0x50, 0xA7, 0xAC, 0xBB, 0x8C)] + [ins(0x1A), ins(0x1B)]
    struct = [ins(2, VOID), ins(2, I32), ins(3, VOID), ins(3, I64), ins(4, VOID), ins(4, I32), ins(5), ins(0x0B)]
    rest = [ins(0x0D, VOID, 0), ins(0x0D, VOID, 1), ins(0x20, VOID, 0), ins(0x20, VOID, 1), ins(0x21, VOID, 0), ins(0x21, VOID, 1), ins(0x22, VOID, 1),
            ins(0x23, VOID, 0), ins(0x24, VOID, 1), ins(0x10, VOID, 1), ins(0x10, VOID, 2), ins(0x11, VOID, 6, 0), ins(0x28, VOID, 0, 0), ins(0x37, VOID, 0, 0), ins(0x3F, VOID, 0), ins(0x40, VOID, 0)]
    if run.thorough:
        for ret in RETS[:3]:
            explore(run, 'dead code, result %s' % ret, Host(ret), kill + CONSTS + some + struct + rest, 2, 2, 6, 80000, timeout=1500)
        explore(run, 'every instruction', Host([]), [ins(0)] + PLAIN + rest, 3, 1, 6, 60000, timeout=1500)
        explore(run, 'three levels', Host([I32]), [ins(0), ins(0x0C, VOID, 1), ins(0x0D, VOID, 1), ins(0x41), ins(0x42), ins(0x6A), ins(0x1B)] + struct, 2, 3, 3, 100000, timeout=1500)
    else:
        explore(run, 'two levels', Host(rng.choice(RETS[:3])), kill + CONSTS[:2] + some[:2] + [ins(0x1A), ins(0x1B)] + struct + rest[:4], 2, 2, 2, 9000)
        explore(run, 'every instruction', Host([]), [ins(0)] + PLAIN + rest, 1, 1, 3, 4000)
        explore(run, 'three levels', Host(rng.choice([[], [I32]])), [ins(0), ins(0x0C, VOID, 1), ins(0x0D, VOID, 1), ins(0x41), ins(0x6A), ins(2, I32), ins(4, I32), ins(4, VOID), ins(5), ins(0x0B)], 1, 3, 2, 5000)
    # operands of unknown type: every stack of known and unknown types, and what is made of it
    explore(run, 'unknown operands', Host(rng.choice([[], [I32]])), [ins(0), ins(0x1B), ins(0x1A), ins(0x22, VOID, 0), ins(0x45), ins(0xAC)] + CONSTS[:2], 4, 1, 12, 4000)
    explore(run, 'unknown operands in a block', Host([]), [ins(2, VOID), ins(2, I32), ins(0x0B), ins(0), ins(0x0C, VOID, 0), ins(0x0D, VOID, 0), ins(0x1B), ins(0x1A)] + CONSTS[:2], 3, 2, 8, 4000)
    # every way to make code dead x every instruction and pair after it
    host = Host([I32])
    cases = []
    ways = [b'\x00', const(I32) + b'\x0c\0', const(I32) + b'\x0f', const(I32) + b'\x41\0\x0e\x00\0', const(I32) + b'\x41\0\x0e\x01\0\0']
    after = [encode(i) for i in PLAIN + rest]
    for w in ways:
        for a in after:
            for end in (b'', b'\x1a', const(I32), b'\x1a\x1a', b'\x21\0', b'\x21\x01'):
                cases.append(Case('module', host.code([w + a + end + b'\x0b']), 1, 1))
        for _ in range(5000 if run.thorough else 500):
            k = rng.choice(['', 'block', 'if', 'else'])
            seq = b''.join(rng.choice(after) for _ in range(rng.randint(1, 4)))
            tail = rng.choice([b'', const(I32), const(I64), b'\x1a', b'\x00'])
            if k == 'block':
                w2 = w.replace(b'\x0c\0', b'\x0c\x01')
                d = bytes([rng.choice([2, 3]), rng.choice([VOID, I32, I64])]) + w2 + seq + b'\x0b' + tail
            elif k == 'if':
                d = b'\x41\0\x04' + bytes([rng.choice([VOID, I32])]) + w.replace(b'\x0c\0', b'\x0c\x01') + b'\x05' + seq + b'\x0b' + tail
            elif k == 'else':
                d = b'\x41\0\x04' + bytes([rng.choice([VOID, I32])]) + seq + b'\x05' + w.replace(b'\x0c\0', b'\x0c\x01') + b'\x0b' + tail
            else:
                d = w + seq + tail
            cases.append(Case('module', host.code([d + b'\x0b']), 1, 1))
    run.check('after unconditional branches', cases, [host.prelude(1)])
    tall(run, 'tall dead stacks', b'\x00')
    mixed(run, 300, 3000)
    surroundings(run, 2500)


# --------------------------------------------------------------------------------------- variables

def locals_of(params, runs):
    out = list(params)
    for n, t in runs:
        out += [t] * n
    return out


def c16(run):
    rng = run.rng
    out = []

    def use(op, i, t):
        """Code that is right when variable i has type t."""
        if op in (0x20, 0x23):
            return bytes([op]) + u(i) + take_any(t)
        if op in (0x21, 0x24):
            return const(t) + bytes([op]) + u(i)
        return const(t) + b'\x22' + u(i) + take_any(t)

    def take_any(t):
        """Consumes exactly a t without naming a variable."""
        return {I32: b'\x45', I64: b'\x50', F32: b'\x8b', F64: b'\x99'}[t] + b'\x1a'

    def single(params, runs, code):
        return Case('module', MAGIC + section(1, vec([functype(params, [])])) + section(3, vec([u(0)]))
                    + section(10, vec([body(code + b'\x0b', runs)])), nt=1)
    shapes = [([], []), ([I32], []), ([], [(1, I64)]), ([F32, F64], [(1, I32)]), ([I32, I64], [(2, F32), (1, F64)]),
              ([], [(0, I32), (1, I64)]), ([I64], [(0, F32), (0, F64)]), ([F64], [(1, I32), (0, F32), (2, I64), (1, I32)]),
              ([I32, I32, I64], [(3, I32), (3, F64)]), ([], [(127, I32), (1, I64), (1, F32)]), ([], [(128, I32), (1, I64)]),
              ([F32] * 3, [(130, I64), (126, I32), (2, F64)]), ([], [(255, I32), (1, F32), (1, I64)]), ([], [(300, F64), (1, I32)]),
              ([I32] * 129, [(1, I64)]), ([], [(16383, I32), (2, I64)]), ([], [(65535, I32), (2, I64)]), ([], [(65536, F32), (1, I32)])]
    for n in words.near(3, 70000):
        shapes += [([], [(n, F32), (1, I64)]), ([I32] * min(n, 300), [(2, F64)])]
    for _ in range(60 if run.thorough else 12):
        shapes.append(([rng.choice(TYPES) for _ in range(rng.randrange(5))],
                       [(rng.choice([0, 1, 1, 2, 3, 20]), rng.choice(TYPES)) for _ in range(rng.randrange(5))]))
    for params, runs in shapes:
        ts = locals_of(params, runs)
        n = len(ts)
        at = sorted({0, 1, 2, 3, len(params) - 1, len(params), len(params) + 1, n - 2, n - 1, 126, 127, 128, 129, 254, 255, 256, 16383, 16384, 65535, 65536} | set(words.near(4, 70000))
                    | {rng.randrange(n) for _ in range(4) if n})
        for i in at:
            if 0 <= i < n:
                for op in (0x20, 0x21, 0x22):
                    for t in TYPES:
                        out.append(single(params, runs, use(op, i, t)))
        for i in (n, n + 1, n + 2, n + 127, 2**31, 2**32 - 1, n + 2**8, n + 2**16):
            for op in (0x20, 0x21, 0x22):
                out.append(single(params, runs, use(op, i, rng.choice(TYPES))))
                out.append(single(params, runs, b'\x00' + bytes([op]) + u(i) + (b'' if op == 0x21 else b'\x1a')))
        for i in sorted({0, n - 1, rng.randrange(n)}) if n else ():
            for k in gen.LOST:
                op = rng.choice([0x20, 0x21, 0x22])
                out.append(single(params, runs, use(op, i + k, ts[i])))
                out.append(single(params, runs, b'\x00' + bytes([op]) + u(i + k) + (b'' if op == 0x21 else b'\x1a')))
    # several functions: variables of one are not those of another
    for _ in range(6000 if run.thorough else 1500):
        k = rng.randint(2, 4)
        fs = [([rng.choice(TYPES) for _ in range(rng.randrange(4))], [rng.choice(TYPES)] if rng.random() < 0.5 else [],
               [(rng.choice([0, 1, 2]), rng.choice(TYPES)) for _ in range(rng.randrange(4))]) for _ in range(k)]
        wrong = rng.random() < 0.5
        bodies = []
        for j, (p, q, runs) in enumerate(fs):
            ts = locals_of(p, runs)
            other = fs[(j + rng.choice([1, -1])) % k]
            src = locals_of(other[0], other[2]) if wrong and rng.random() < 0.4 else ts
            code = b''
            for i, t in enumerate(src):
                if rng.random() < 0.7:
                    code += use(rng.choice([0x20, 0x21, 0x22]), i, t)
            for t in (other[1] if wrong and rng.random() < 0.2 else q):
                code += const(t)
            bodies.append(body(code + b'\x0b', runs))
        out.append(Case('module', MAGIC + section(1, vec(functype(p, q) for p, q, _ in fs)) + section(3, vec(u(j) for j in range(k)))
                        + section(10, vec(bodies)), nt=1))
    # globals, imported and defined
    for ni in range(4):
        for nd in range(4):
            for _ in range(20 if run.thorough else 4):
                gs = [(rng.choice(TYPES), rng.randrange(2)) for _ in range(ni + nd)]
                head = MAGIC + section(1, vec([VOIDF, functype([I64], [])])) + section(2, vec(
                    sorted([imp_global('a', 'g', *g) for g in gs[:ni]] and []) or
                    interleave(rng, [imp_global('a', 'g', *g) for g in gs[:ni]], [imp_func('a', 'f', 1)] * rng.randrange(3))))
                head += section(3, vec([u(0)])) + section(6, vec(globaltype(*g) + const(g[0]) + b'\x0b' for g in gs[ni:]))
                for i in list(range(ni + nd + 2)) + [127, 128, 2**32 - 1]:
                    for op in (0x23, 0x24):
                        for t in TYPES:
                            out.append(Case('module', head + section(10, vec([body(use(op, i, t) + b'\x0b', [(1, F32)])])), nt=1))
                        out.append(Case('module', head + section(10, vec([body(b'\x00' + bytes([op]) + u(i) + b'\x00\x0b')])), nt=1))
                for i, g in enumerate(gs):
                    for k in gen.LOST:
                        out.append(Case('module', head + section(10, vec([body(use(0x24 if g[1] and rng.random() < 0.5 else 0x23, i + k, g[0]) + b'\x0b')])), nt=1))
    for ni, nd in [(127, 2), (128, 2), (2, 127), (0, 130), (255, 3)] + [x for n in words.near(4, 300) for x in ((n, 1), (1, n))]:
        gs = [(TYPES[(i * 7 + i // 5) % 4], i % 3 % 2) for i in range(ni + nd)]
        head = MAGIC + section(1, vec([VOIDF])) + section(2, vec(imp_global('a', 'g', *g) for g in gs[:ni])) + section(3, vec([u(0)])) \
            + section(6, vec(globaltype(*g) + const(g[0]) + b'\x0b' for g in gs[ni:]))
        for i in (0, 1, ni - 1, ni, ni + 1, ni + nd - 1, ni + nd, 126, 127, 128, 129, 254, 255, 256) + tuple(words.near(4, 300)):
            if i >= 0:
                for op in (0x23, 0x24):
                    for t in TYPES:
                        out.append(Case('module', head + section(10, vec([body(use(op, i, t) + b'\x0b')])), nt=1))
    run.check('variables', out)
    # writes among other operands
    vars_ = [ins(o, VOID, i) for o in (0x20, 0x21, 0x22) for i in range(4)] + [ins(o, VOID, i) for o in (0x23, 0x24) for i in range(7)] \
        + [ins(o, VOID, n) for o in (0x20, 0x21, 0x22) for n in (4, 5)]
    explore(run, 'variables and operands', Host([]), vars_ + CONSTS, 3 if run.thorough else 2, 1, 6 if run.thorough else 3, 40000)
    mixed(run, 300, 3000)
    run.check('large modules', scale.large(run))
    surroundings(run, 4000)


def interleave(rng, a, b):
    """Both lists, each in its order."""
    a, b, out = list(a), list(b), []
    while a or b:
        out.append((a if a and (not b or rng.random() < 0.5) else b).pop(0))
    return out


# ------------------------------------------------------------------------------------- index spaces

class Spaces:
    """A module in which the number of imported and defined entries of each kind is chosen."""

    def __init__(self, rng, ntypes, fi, fd, ti, td, mi, md, gi, gd):
        self.rng = rng
        self.types = [([TYPES[i % 4]] * (i % 3), [TYPES[(i + 1) % 4]] if i % 2 else []) for i in range(ntypes)]
        self.funcs = [rng.randrange(ntypes) for _ in range(fi + fd)] if ntypes else []
        self.globs = [(rng.choice(TYPES), rng.randrange(2)) for _ in range(gi + gd)]
        self.n = {'type': ntypes, 'func': len(self.funcs), 'table': ti + td, 'mem': mi + md, 'global': gi + gd}
        self.fi, self.gi = fi if ntypes else 0, gi
        imps = [[imp_func('m', 'f', t) for t in self.funcs[:self.fi]], [imp_table('m', 't', i) for i in range(ti)],
                [imp_mem('m', 'm', i) for i in range(mi)], [imp_global('m', 'g', *g) for g in self.globs[:gi]]]
        self.imports = interleave(rng, interleave(rng, imps[0], imps[1]), interleave(rng, imps[2], imps[3]))
        # names are of no account: now and then all imports have the same, or empty ones
        self.names = rng.choice([None, None, None, b'\x00\x00', b'\x00\x01f', b'\x01m\x00', b'\x01m\x01m', b'\x03env\x06memory'])
        self.decl = list(self.funcs[self.fi:])
        self.tables = [table(7 + i, 20) for i in range(td)]
        self.mems = [limits(3 + i, 9) for i in range(md)]
        self.globals = [globaltype(*g) + const(g[0], 5) + b'\x0b' for g in self.globs[gi:]]
        self.exports, self.start, self.elems, self.datas, self.codes = [], None, [], [], [b'\x00\x0b'] * len(self.decl)

    def bytes(self):
        d = MAGIC

        def sec(i, items):
            nonlocal d
            if items:
                d += section(i, vec(items))
        sec(1, [functype(*t) for t in self.types])
        sec(2, [self.names + x[4:] if self.names else x for x in self.imports])      # the names above have one letter each
        sec(3, [u(i) for i in self.decl])
        sec(4, self.tables)
        sec(5, self.mems)
        sec(6, self.globals)
        sec(7, self.exports)
        if self.start is not None:
            d += section(8, u(self.start))
        sec(9, self.elems)
        sec(10, [body(c) for c in self.codes])
        sec(11, self.datas)
        return d


def c17(run):
    rng, out = run.rng, []

    def near(n):
        return sorted({0, 1, max(0, n - 1), n, n + 1, n + 2, 127, 128, 2**31, 2**32 - 1} | set(run.pick(words.near(3, 2**32 - 1), 4))
                      | {rng.randrange(max(1, n)) + k for k in (2**8, 2**16, rng.choice(gen.LOST))})

    def put(s):
        out.append(Case('module', s.bytes(), nt=1))
    shapes = []
    for fi, fd in itertools.product(range(3), range(1, 3)):
        for gi, gd in itertools.product(range(3), range(3)):
            for tab in ((0, 0), (1, 0), (0, 1)):
                for mem in ((0, 0), (1, 0), (0, 1)):
                    shapes.append((fi, fd) + tab + mem + (gi, gd))
    shapes += [(0, 127, 0, 1, 0, 1, 0, 0), (127, 1, 0, 1, 0, 1, 0, 127), (128, 1, 1, 0, 1, 0, 128, 0), (0, 128, 1, 0, 1, 0, 127, 2), (1, 255, 0, 1, 0, 1, 1, 255),
               (255, 2, 0, 1, 0, 1, 255, 1), (0, 300, 0, 1, 0, 1, 0, 0)]
    for shape in run.pick(shapes, 60):
        fi, fd, ti, td, mi, md, gi, gd = shape
        ntypes = rng.choice([1, 2, 3, 5, 130]) if fi + fd < 10 else 4

        def new():
            return Spaces(rng, ntypes, fi, fd, ti, td, mi, md, gi, gd)
        s = new()
        put(s)
        for k, sp in enumerate(('func', 'table', 'mem', 'global')):
            for i in near(s.n[sp]):
                s = new()
                s.exports = [export('e', k, i)]
                put(s)
                if i < s.n[sp]:
                    s.exports = [export('e%d' % j, kk, jj) for j, (kk, jj) in enumerate((a, b) for a, c in enumerate(('func', 'table', 'mem', 'global'))
                                                                                         for b in range(min(3, s.n[c])))]
                    put(s)
        for i in near(fi + fd):
            s = new()
            s.start = i
            put(s)
            s = new()                                             # a start function that would do
            s.types.append(([], []))
            s.types = s.types
            for j in range(len(s.funcs)):
                s.funcs[j] = len(s.types) - 1
            s.decl = s.funcs[s.fi:]
            s.imports = [imp_func('m', 'f', len(s.types) - 1)] * fi + [x for x in s.imports if x[4:5] != b'\x00']
            s.start = i
            put(s)
            s = new()
            s.elems = [u(0) + const(I32) + b'\x0b' + vec([u(0), u(i)])]
            put(s)
            s = new()
            s.codes[-1] = b'\x00\x10' + u(i) + b'\x00\x0b'
            put(s)
            s.codes[-1], s.codes[0] = b'\x00\x0b', b'\x00\x10' + u(i) + b'\x00\x0b'
            put(s)
        for i in (0, 1, 2, 127, 2**8, 2**16, rng.choice(gen.LOST), 2**32 - 1):
            for sp in ('elem', 'data'):
                s = new()
                seg = u(i) + const(I32) + b'\x0b' + vec([])
                if sp == 'elem':
                    s.elems = [seg]
                else:
                    s.datas = [seg]
                put(s)
                if sp == 'elem':
                    s.elems = [u(0) + const(I32) + b'\x0b' + vec([]), seg]
                else:
                    s.datas = [u(0) + const(I32) + b'\x0b' + vec([]), seg]
                put(s)
            s = new()
            s.codes[0] = b'\x00\x11\x00' + u(i) + b'\x00\x0b'
            put(s)
            for op in (0x3F, 0x40):
                s = new()
                s.codes[0] = b'\x00' + bytes([op]) + u(i) + b'\x00\x0b'
                put(s)
        for i in near(ntypes):
            s = new()
            s.imports = s.imports + [imp_func('m', 'x', i)]
            put(s)
            s = new()
            s.imports = [imp_func('m', 'x', i)] + s.imports
            put(s)
            s = new()
            s.decl[-1] = i
            put(s)
            s = new()
            s.decl[0] = i
            put(s)
            s = new()
            s.codes[0] = b'\x00\x11' + u(i) + b'\x00\x00\x0b'
            put(s)
        for i in near(gi + gd):
            for op in (0x23, 0x24):
                s = new()
                s.codes[0] = b'\x00' + bytes([op]) + u(i) + b'\x00\x0b'
                put(s)
            s = new()
            s.elems = [u(0) + b'\x23' + u(i) + b'\x0b' + vec([])]
            put(s)
            s = new()
            s.datas = [u(0) + b'\x23' + u(i) + b'\x0b' + vec([])]
            put(s)
    # what an index denotes shows in its type: calls to each function with the right operands
    for _ in range(3000 if run.thorough else 500):
        s = Spaces(rng, rng.randint(1, 5), rng.randrange(4), rng.randint(1, 3), 0, 1, 0, 1, rng.randrange(4), rng.randrange(3))
        code = b''
        for i, t in enumerate(s.funcs):
            p, q = s.types[t if rng.random() < 0.95 else rng.randrange(len(s.types))]
            code += b''.join(const(x) for x in p) + b'\x10' + u(i) + b''.join({I32: b'\x45', I64: b'\x50', F32: b'\x8b', F64: b'\x99'}[x] + b'\x1a' for x in q)
        for i, (t, mt) in enumerate(s.globs):
            if mt or rng.random() < 0.03:
                code += const(t) + b'\x24' + u(i)
            code += b'\x23' + u(i) + {I32: b'\x45', I64: b'\x50', F32: b'\x8b', F64: b'\x99'}[t] + b'\x1a'
        s.codes[-1] = code + b'\x00\x0b'
        put(s)
        s = Spaces(rng, rng.randint(1, 5), rng.randrange(4), rng.randint(1, 3), 1, 0, 1, 0, rng.randrange(4), rng.randrange(3))
        i = rng.randrange(len(s.types))
        p, q = s.types[i]
        s.codes[-1] = b''.join(const(x) for x in p) + b'\x41\0\x11' + u(i) + u(0) + b''.join(
            {I32: b'\x45', I64: b'\x50', F32: b'\x8b', F64: b'\x99'}[x] + b'\x1a' for x in q) + b'\x00\x0b'
        put(s)
    run.check('indices', out)
    mixed(run, 200, 2000)
    run.check('large modules', scale.large(run, (), (100, 300)))
    surroundings(run, 3000)


# ------------------------------------------------------------------------------- constant expressions

def c18(run):
    rng, out = run.rng, []
    from .frame import immediates
    imps = [(t, mt) for t in TYPES for mt in (0, 1)]

    def head(gl=(), extra=()):
        return MAGIC + section(1, vec([VOIDF])) + section(2, vec([imp_global('m', 'g', *g) for g in imps] + list(extra))) \
            + section(3, vec([u(0)])) + section(4, vec([table(1)])) + section(5, vec([limits(1)])) + (section(6, vec(gl)) if gl else b'')
    code = section(10, vec([body(b'\x0b')]))

    def put(e, types=TYPES, offsets=True):
        """The expression in every place, e without its end."""
        for t in types:
            for mt in (0, 1) if rng.random() < 0.3 else (rng.randrange(2),):
                out.append(Case('module', head([globaltype(t, mt) + e + b'\x0b']) + code, nt=1))
        if offsets:
            out.append(Case('module', head() + section(9, vec([u(0) + e + b'\x0b' + vec([u(0)])])) + code, nt=1))
            out.append(Case('module', head() + code + section(11, vec([u(0) + e + b'\x0b' + name('x')])), nt=1))
    for t in TYPES:
        for v in [0, 1, -1, 2**31 - 1, -2**31] + [x for n in words.near(2, 2**31 - 1) for x in (n, -n)]:
            put(const(t, v))
    put(b'')
    for i in range(len(imps) + 3):
        put(b'\x23' + u(i))
    for i in (127, 128, 2**31, 2**32 - 1):
        put(b'\x23' + u(i))
    for i in range(len(imps)):
        for k in gen.LOST:
            put(b'\x23' + u(i + k))
    # anything else, alone, before and after a constant
    for op in range(0xC0):
        for d in run.pick(immediates(rng, op), 2, 8):
            if len(d) > 60:
                continue
            put(d, (I32,))
            put(const(I32) + d, (I32, I64))
            put(d + const(I32), (I32,))
            put(const(I32) * 2 + d, (I32,))
    for a in TYPES:
        for b in TYPES:
            put(const(a) + const(b), (a, b))
            put(const(a) + b'\x1a' + const(b), (b,))
        put(const(a) + b'\x0f', (a,))
        put(const(a) + b'\x0c\0', (a,))
        put(const(a) + b'\x01', (a,))
        put(b'\x01' + const(a), (a,))
        put(b'\x02' + bytes([a]) + const(a) + b'\x0b', (a,))
        put(b'\x00' + const(a), (a,))
        put(b'\x23\x00' + const(a), (a,))
        put(const(a) + b'\x23\x00', (a,))
        put(b'\x23\x00\x23\x00', (a,))
    put(b'\x00', TYPES)
    # globals seen by initialisers: only imported ones; by offsets: all of them
    for gl in itertools.product([(t, mt) for t in (I32, I64, F64) for mt in (0, 1)], repeat=2):
        for i in range(len(imps) + 4):
            base = [globaltype(*g) + const(g[0]) + b'\x0b' for g in gl]
            for t in ([gl[0][0]] if not run.thorough else TYPES):
                out.append(Case('module', head(base + [globaltype(t, 0) + b'\x23' + u(i) + b'\x0b']) + code, nt=1))
                out.append(Case('module', head([globaltype(t, 0) + b'\x23' + u(i) + b'\x0b'] + base) + code, nt=1))
            out.append(Case('module', head(base) + section(9, vec([u(0) + b'\x23' + u(i) + b'\x0b' + vec([])])) + code, nt=1))
            out.append(Case('module', head(base) + code + section(11, vec([u(0) + b'\x23' + u(i) + b'\x0b' + vec([])])), nt=1))
    # the faulty one is the first, the last, or in the middle
    for n in (1, 2, 3, 5):
        for k in range(n):
            for e in (b'', const(I64), b'\x23\x01', b'\x41\0\x41\0', b'\x20\0', const(I32)):
                seq = [const(I32)] * n
                seq[k] = e
                out.append(Case('module', head([globaltype(I32, 0) + x + b'\x0b' for x in seq]) + code, nt=1))
                out.append(Case('module', head() + section(9, vec(u(0) + x + b'\x0b' + vec([]) for x in seq)) + code, nt=1))
                out.append(Case('module', head() + code + section(11, vec(u(0) + x + b'\x0b' + vec([]) for x in seq)), nt=1))
    # without imports; imports of other kinds first
    for gl in itertools.product([(I32, 0), (I64, 0)], repeat=2):
        for i in range(3):
            d = MAGIC + section(6, vec([globaltype(*gl[0]) + const(gl[0][0]) + b'\x0b', globaltype(*gl[1]) + b'\x23' + u(i) + b'\x0b']))
            out.append(Case('module', d, nt=1))
            out.append(Case('module', MAGIC + section(1, vec([VOIDF])) + section(2, vec([imp_func('a', 'b', 0), imp_mem('a', 'c', 0), imp_global('a', 'd', *gl[0])]))
                            + section(6, vec([globaltype(*gl[1]) + b'\x23' + u(i) + b'\x0b'])), nt=1))
    for _ in range(8000 if run.thorough else 1500):
        m = gen.Module(rng, size=2)
        for i in (6, 9, 11):
            if m.parts[i] and rng.random() < 0.5:
                k = rng.randrange(len(m.parts[i]))
                m.parts[i][k] = gen.mutate(rng, m.parts[i][k], 0)
        out.append(Case('module', m.bytes(customs=0), nt=1))
    run.check('constant expressions', out)
    surroundings(run, 2500)


# ------------------------------------------------------------------------------------- module rules

def ruled(rng):
    """A module of some declarations of all kinds, right and with one rule broken."""
    n = lambda k: rng.randrange(k + 1)
    text = iter(rng.sample(['%s%d' % (a, i) for a in ('', 'f', 'mem', 'é') for i in range(40)], 100))
    types = [([], [])] + [([rng.choice(TYPES)] * n(2), [rng.choice(TYPES)] * n(1)) for _ in range(n(3))]
    rng.shuffle(types)
    fine = [(0,), (0, 0), (1, 1), (3, 200), (1, 65536), (65536,)]
    where = {k: rng.choice(['import', 'define', None]) for k in 'tm'}
    fi, fd = [[rng.randrange(len(types)) for _ in range(n(2))] for _ in range(2)]
    gi, gd = n(2), n(2)
    limit = {k: rng.choice(fine + ([(2**32 - 1,), (70000, 70000)] if k == 't' else [])) for k in 'tm'}
    unit = [i for i, t in enumerate(fi + fd) if types[t] == ([], [])]
    counts = {0: len(fi + fd), 1: int(bool(where['t'])), 2: int(bool(where['m'])), 3: gi + gd}
    names = [(next(text), k, rng.randrange(counts[k])) for k in rng.choices(range(4), k=n(6)) if counts[k]]
    start = rng.choice(unit) if unit and n(1) else None
    elem = [rng.randrange(counts[0]) for _ in range(n(3))] if counts[0] and counts[1] and n(1) else None
    data = counts[2] and n(1)
    kinds = 'f' * len(fi) + 'g' * gi + ('t' if where['t'] == 'import' else '') + ('m' if where['m'] == 'import' else '')
    kinds = rng.sample(kinds, len(kinds))

    def put(limit, more=None, names=names, start=start, types=types):
        f, imps = iter(fi), []
        for k in kinds:
            a, b = rng.choice('ab'), rng.choice('cd')
            imps.append(imp_func(a, b, next(f)) if k == 'f' else imp_global(a, b, rng.choice(TYPES), 0) if k == 'g'
                        else imp_table(a, b, *limit['t']) if k == 't' else imp_mem(a, b, *limit['m']))
        tabs = [table(*limit['t'])] if where['t'] == 'define' else []
        mems = [limits(*limit['m'])] if where['m'] == 'define' else []
        if more:
            at, x = more
            to = {2: imps, 4: tabs, 5: mems}[at]
            to.insert(n(len(to)), x)
        code = section(10, vec([body(rng.choice([b'\x00\x0b', b'\x01\x00\x0b'])) for _ in fd])) if fd else b''
        parts = [(1, [functype(*t) for t in types]), (2, imps), (3, [u(t) for t in fd]), (4, tabs), (5, mems),
                 (6, [globaltype(t, n(1)) + const(t) + b'\x0b' for t in rng.choices(TYPES, k=gd)]), (7, [export(*x) for x in names])]
        d = MAGIC + b''.join(section(i, vec(x)) for i, x in parts if x or rng.random() < 0.1)
        d += section(8, u(start)) if start is not None else b''
        d += section(9, vec([elem_seg(elem)])) if elem is not None else b''
        return d + code + (section(11, vec([b'\0\x41\0\x0b' + sized(b'abc')])) if data else b'')

    out = [put(limit)]
    bad = []
    for k in 'tm':
        if where[k]:
            wrong = rng.choice([(1, 0), (65536, 65535), (300, 44), (256, 255)] + ([(65537,), (0, 65537), (2**32 - 1,), (65537, 65537)] if k == 'm' else [(2**32 - 1, 0)]))
            bad += [lambda k=k, wrong=wrong: put(dict(limit, **{k: wrong}))] * 3
            x = limit[k] if n(1) else rng.choice(fine)
            bad += [lambda k=k, x=x: put(limit, rng.choice([(2, imp_table('a', 'b', *x) if k == 't' else imp_mem('a', 'b', *x)), (4 if k == 't' else 5, table(*x) if k == 't' else limits(*x))]))]
    if names:
        again = list(names)
        again.insert(n(len(names)), (rng.choice(names)[0],) + rng.choice(names)[1:])
        bad += [lambda: put(limit, names=again)]
    if len(unit) < counts[0]:
        bad += [lambda: put(limit, start=rng.choice([i for i in range(counts[0]) if i not in unit]))]
    bad += [lambda: put(limit, start=counts[0])]
    many = types + [([rng.choice(TYPES)] * n(2), [rng.choice(TYPES) for _ in range(2 + n(1))])]
    bad += [lambda: put(limit, types=many)]
    return out + [f() for f in rng.sample(bad, min(2, len(bad)))]


def elem_seg(fs):
    return b'\0\x41\0\x0b' + vec(u(f) for f in fs)


def c19(run):
    rng, out = run.rng, []

    def put(d):
        out.append(Case('module', d, nt=1))
    # limits
    vals = [0, 1, 2, 127, 128, 255, 256, 65534, 65535, 65536, 65537, 65538, 2**24, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]
    vals = sorted(set(vals + run.pick(words.near(3, 2**32 - 1), 12)))
    for a in vals:
        for b in [None] + vals:
            for where in range(4):
                d = MAGIC
                if where == 0:
                    d += section(4, vec([table(a, b)]))
                elif where == 1:
                    d += section(5, vec([limits(a, b)]))
                elif where == 2:
                    d += section(2, vec([imp_table('m', 't', a, b)]))
                else:
                    d += section(2, vec([imp_mem('m', 't', a, b)]))
                put(d)
    for _ in range(500):
        a = rng.getrandbits(rng.randint(0, 32))
        b = rng.choice([a, a + 1, a - 1, rng.getrandbits(rng.randint(0, 32))])
        if 0 <= b < 2**32:
            put(MAGIC + section(4, vec([table(a, b)])))
            put(MAGIC + section(2, vec([imp_table('m', 't', a, b)])))
            put(MAGIC + section(5, vec([limits(a % 70000, b % 70000)])))
    # how many tables and memories
    for ti, td, mi, md in itertools.product(range(3), repeat=4):
        imps = interleave(rng, [imp_table('m', 't', 1)] * ti, [imp_mem('m', 'm', 1)] * mi)
        imps = interleave(rng, imps, [imp_global('m', 'g', I32, 0)] * rng.randrange(2))
        put(MAGIC + (section(2, vec(imps)) if imps or rng.random() < 0.5 else b'') + (section(4, vec([table(1)] * td)) if td else b'')
            + (section(5, vec([limits(1)] * md)) if md else b''))
    # results of function types, used or not
    for n in range(1, 5):
        for k in range(n):
            for q in ([], [I32], [I32, I32], [I32, F64], [I64] * 3, [F32] * 128):
                for p in ([], [I32, I64, F32], [F64] * 130):
                    ts = [([], [])] * n
                    ts[k] = (p, q)
                    put(MAGIC + section(1, vec(functype(*t) for t in ts)))
                    if len(q) < 4:
                        put(MAGIC + section(1, vec(functype(*t) for t in ts)) + section(2, vec([imp_func('a', 'b', k)])))
    for n in sorted(set([5, 8, 9, 10, 16, 17, 21, 32, 33, 64, 100, 127, 128, 129, 257] + words.near(5, 600))):
        for k in sorted({0, 1, n // 2, n - 2, n - 1, rng.randrange(n)}):
            for q in ([I32], [I32, F64]):
                ts = [(rng.choice([[], [I32], [F32, I64]]), rng.choice([[], [F64]])) for _ in range(n)]
                ts[k] = (rng.choice([[], [I64, I64]]), q)
                put(MAGIC + section(1, vec(functype(*t) for t in ts)))
    # export names
    names = run.pick(words.TEXTS, 25) + ['', 'a', 'b', 'A', 'aa', 'ab', 'a\0', '\0', 'é', 'é', 'e', '€', 'a ', ' a', 'x' * 127, 'x' * 128, 'x' * 129, 'x' * 127 + 'y', '😀', '0', '00']
    base = MAGIC + section(1, vec([VOIDF])) + section(3, vec([u(0)] * 2)) + section(4, vec([table(1)])) + section(5, vec([limits(1)])) \
        + section(6, vec([globaltype(I32, 0) + const(I32) + b'\x0b'] * 2))
    code = section(10, vec([body(b'\x0b')] * 2))
    for a in names:
        for b in names:
            for ka, kb in ((0, 0), (0, 3), (1, 2), (3, 3)):
                put(base + section(7, vec([export(a, ka, 0), export(b, kb, 1 if kb in (0, 3) and rng.random() < 0.5 else 0)])) + code)
    for n in sorted(set([1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 63, 64, 100, 126, 127, 128, 199, 200, 255, 256, 400] + words.near(1, 1000))):
        long = ''.join(rng.choice('ab') for _ in range(n))                      # long names that differ in one place only
        for i in sorted({0, 1, n // 2, n - 1}):
            for b in (long, long + 'a', long[:i] + ('b' if long[i:i + 1] == 'a' else 'a') + long[i + 1:], long[:i] + long[i + 1:], long[:i] + long[i:i + 1].upper() + long[i + 1:]):
                put(base + section(7, vec(rng.sample([export(long, 0, 0), export('c', 1, 0), export(b, rng.choice([0, 3]), 1)], 3))) + code)
    # different names which common digests (with factor 31, 33, FNV, CRC, sums, exclusive ors) do not tell apart
    for a, b in [('Aa', 'BB'), ('xAay', 'xBBy'), ('AaAaAaAaAa', 'BBAaBBAaBB'), ('bA', 'ab'), ('liquid', 'costarring'), ('declinate', 'macallums'), ('altarage', 'zinke'),
                 ('plumless', 'buckeroo'), ('ab', 'ba'), ('abc', 'bca'), ('get_set', 'set_get'), ('aab', 'bcc'), ('ad', 'bc'), ('aa', 'bb'),
                 ('abcdefghXbcdefgY', 'XbcdefgYabcdefgh'), ('a1234567b', 'b1234567a'), ('a123b', 'b123a'), ('\0\0a', '\0a'), ('a\0\0', 'a\0')]:
        for c in (a, b):
            put(base + section(7, vec(rng.sample([export(a, 0, 0), export('k', 1, 0), export(c, rng.choice([0, 3]), 1)], 3))) + code)
    for n in [2, 3, 5, 17, 64, 127, 128, 129, 300] + words.near(4, 1000):
        for rep in (False, True):
            for _ in range(4):
                es = ['n%d' % i for i in range(n)]
                if rep:
                    i, j = rng.sample(range(n), 2)
                    es[i] = es[j]
                put(base + section(7, vec(export(e, rng.choice([0, 3]), rng.randrange(2)) for e in es)) + code)
    imp = section(2, vec([imp_func('m', 'a', 0), imp_func('m', 'a', 0), imp_func('m', 'b', 0), imp_global('m', 'a', I32, 0)]))     # imports may share names
    put(MAGIC + section(1, vec([VOIDF])) + imp + section(7, vec([export('a', 0, 0), export('b', 0, 1)])))
    put(MAGIC + section(1, vec([VOIDF])) + imp + section(7, vec([export('a', 0, 0), export('a', 0, 1)])))
    # start
    sigs = [([], []), ([I32], []), ([], [I32]), ([I64], [I64]), ([F32, F64], []), ([], [F64])]
    for ni in range(3):
        for nd in range(3):
            for _ in range(8):
                fs = [rng.randrange(6) for _ in range(ni + nd)]
                for i in list(range(ni + nd + 1)) + [rng.randrange(max(1, ni + nd)) + k for k in gen.LOST]:
                    put(MAGIC + section(1, vec(functype(*t) for t in sigs)) + section(2, vec(imp_func('m', 'f', t) for t in fs[:ni]))
                        + section(3, vec(u(t) for t in fs[ni:])) + section(8, u(i)) + section(10, vec([body(b'\x00\x0b')] * nd)))
    for t in range(6):
        put(MAGIC + section(1, vec(functype(*x) for x in sigs)) + section(3, vec([u(t)])) + section(8, u(0)) + section(10, vec([body(b'\x00\x0b')])))
        put(MAGIC + section(1, vec(functype(*x) for x in sigs)) + section(2, vec([imp_func('a', 'b', t)])) + section(8, u(0)))
    for d in (b'', section(1, vec([])), section(7, vec([])), section(5, vec([])), section(3, vec([])) + section(10, vec([]))):
        put(MAGIC + d)
    run.check('module rules', out)
    out = []
    for _ in range(12000 if run.thorough else 3000):                 # modules that satisfy all rules, or all but one
        m = gen.Module(rng, size=4)
        out.append(Case('module', m.bytes(customs=0), nt=1))
        k = rng.randrange(7)
        if k == 0:
            m.parts[5] = m.parts[5] + [limits(*rng.choice([(0,), (1, 1), (2, 1), (65536,), (65537,), (0, 65536), (0, 65537)]))]
        elif k == 1:
            m.parts[4] = m.parts[4] + [table(*rng.choice([(0,), (1, 1), (2, 1), (2**32 - 1, 2**32 - 1)]))]
        elif k == 2 and m.parts[7]:
            m.parts[7].insert(rng.randrange(len(m.parts[7]) + 1), rng.choice(m.parts[7]))
        elif k == 3:
            m.start = u(rng.randrange(len(m.funcs) + 1))
        elif k == 4:
            m.parts[1] = m.parts[1] + [functype([], [I32] * rng.randrange(3))]
        elif k == 5:
            m.parts[2] = m.parts[2] + [rng.choice([imp_mem('a', 'b', 1), imp_table('a', 'b', 2), imp_global('a', 'b', I32, 1)])]
        else:
            m.parts[7] = m.parts[7] + [export('fresh name', rng.randrange(4), rng.randrange(3))]
        out.append(Case('module', m.bytes(customs=0), nt=1))
    for _ in range(6000 if run.thorough else 1000):
        out.append(Case('module', scale.repeats(rng, gen.Module(rng, size=3)).bytes(customs=0), nt=1))
    run.check('random modules', out)
    out = []
    for _ in range(12000 if run.thorough else 2500):
        d = ruled(rng)
        out += [Case('module', x, nt=1) for x in d]
    run.check('modules but for one rule', out)
    run.check('large modules', scale.large(run))
    surroundings(run, 2500)


# -------------------------------------------------------------------------------------------- memory

def c20(run):
    rng, out = run.rng, []
    every = {**LOADS, **STORES}

    def mod(mem, code, runs=()):
        lim = limits(*rng.choice([(0,), (0, 0), (1,), (1, 1), (0, 65536), (65536,), (65536, 65536), (2, 3)]))
        d = MAGIC + section(1, vec([VOIDF])) + (section(2, vec([name('m') + name('x') + b'\x02' + lim])) if mem == 2 else b'') + section(3, vec([u(0)])) \
            + (section(5, vec([lim])) if mem == 1 else b'')
        return Case('module', d + section(10, vec([body(code + b'\x0b', runs)])), nt=1)
    use = {I32: b'\x45', I64: b'\x50', F32: b'\x8b', F64: b'\x99'}
    for op, (t, al) in every.items():
        load = op in LOADS
        for mem in range(3):
            for a in list(range(0, 9)) + [15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 2**31, 2**32 - 1] + run.pick(words.near(9, 2**32 - 1), 6) + [rng.randint(0, al) + k for k in gen.LOST]:
                for o in ((0, 1, 2**32 - 1, rng.choice(gen.SMALL)) if a <= 4 else (rng.choice([0, 7, 2**31, rng.choice(gen.SMALL)]),)):
                    arg = u(a, rng.choice([0, 0, 1])) + u(o, rng.choice([0, 0, 1]))
                    code = const(I32) + (b'' if load else const(t)) + bytes([op]) + arg + (use[t] + b'\x1a' if load else b'')
                    out.append(mod(mem, code))
                    if a <= 4 or rng.random() < 0.2:
                        out.append(mod(mem, b'\x00' + bytes([op]) + arg + (b'\x1a' if load else b'')))
            # operands and results of other types
            arg = u(rng.randint(0, al)) + u(rng.choice([0, 5, 70000]))
            for x in TYPES:
                for y in TYPES:
                    if load:
                        out.append(mod(mem, const(x) + bytes([op]) + arg + use[y] + b'\x1a'))
                    else:
                        out.append(mod(mem, const(x) + const(y) + bytes([op]) + arg))
                out.append(mod(mem, const(x) + bytes([op]) + arg + (b'\x1a' if load else b'')))
            out.append(mod(mem, bytes([op]) + arg + (b'\x1a' if load else b'')))
            out.append(mod(mem, const(I32) * 2 + (b'' if load else const(t)) + bytes([op]) + arg + (b'\x1a' if load else b'') + b'\x1a'))
            out.append(mod(mem, const(I32) * 2 + (b'' if load else const(t)) + bytes([op]) + arg + (b'\x1a' if load else b'')))
            out.append(mod(mem, const(I32) + (b'' if load else const(t)) + bytes([op]) + arg))
            # reached through nesting
            inner = const(I32) + (b'' if load else const(t)) + bytes([op]) + u(al + rng.randrange(2)) + u(0) + (b'\x1a' if load else b'')
            for w in (b'\x02\x40%s\x0b', b'\x03\x40%s\x0b', b'\x41\0\x04\x40%s\x0b', b'\x41\0\x04\x40\x05%s\x0b', b'\x02\x40\x0c\0%s\x0b'):
                out.append(mod(mem, w % inner))
    for mem in range(3):
        for i in [0, 1, 2, 127, 128, 2**32 - 1] + gen.LOST:
            out.append(mod(mem, b'\x3f' + u(i) + b'\x45\x1a'))
            out.append(mod(mem, b'\x41\0\x40' + u(i) + b'\x45\x1a'))
            out.append(mod(mem, b'\x00\x40' + u(i) + b'\x45\x1a'))
        for t in TYPES:
            out.append(mod(mem, b'\x3f\0' + use[t] + b'\x1a'))
            out.append(mod(mem, b'\x41\0\x40\0' + use[t] + b'\x1a'))
            out.append(mod(mem, const(t) + b'\x40\0\x1a'))
        out += [mod(mem, b'\x40\0\x1a'), mod(mem, b'\x3f\0'), mod(mem, b'\x41\0\x3f\0\x1a'), mod(mem, b'\x41\0\x3f\0\x1a\x1a')]
    run.check('memory instructions', out)
    alpha = [ins(o, VOID, rng.randint(0, al + 1), 0) for o, (t, al) in every.items()] + [ins(o, VOID, al, 9) for o, (t, al) in every.items()] \
        + [ins(0x3F, VOID, 0), ins(0x40, VOID, 0)] + CONSTS
    explore(run, 'memory and operands', Host([]), alpha, 3 if run.thorough else 2, 1, 6 if run.thorough else 2, 60000)
    explore(run, 'no memory', Host([], nmem=0), alpha, 2 if run.thorough else 1, 1, 2, 60000)
    mixed(run, 150, 2000)
    surroundings(run, 3500)


# ------------------------------------------------------------------------------------ external types

def c21(run):
    rng, out = run.rng, []
    for _ in range(20000 if run.thorough else 4500):
        # distinct everywhere, so that any confusion shows
        nt = rng.randint(1, 6)
        types = [([rng.choice(TYPES) for _ in range(rng.randrange(4))], [rng.choice(TYPES)] if rng.random() < 0.6 else []) for _ in range(nt)]
        imps, funcs, globs, tabs, mems = [], [], [], [], []

        def lim(mx):
            a = rng.randrange(mx)
            return (a,) if rng.random() < 0.4 else (a, rng.randint(a, mx))
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
            k = rng.choice([0, 0, 3, 3, 1, 2])
            nm = (rng.choice(['m', 'n', '']), rng.choice(['a', 'b', 'c']))
            if k == 0:
                t = rng.randrange(nt)
                imps.append(imp_func(*nm, t))
                funcs.append(t)
            elif k == 1 and not tabs:
                tabs.append(1)
                imps.append(imp_table(*nm, *lim(2**32 - 1)))
            elif k == 2 and not mems:
                mems.append(1)
                imps.append(imp_mem(*nm, *lim(65536)))
            elif k == 3:
                g = (rng.choice(TYPES), rng.randrange(2))
                imps.append(imp_global(*nm, *g))
                globs.append(g)
        decl = [rng.randrange(nt) for _ in range(rng.randrange(4))]
        funcs += decl
        d = MAGIC + section(1, vec(functype(*t) for t in types)) + (section(2, vec(imps)) if imps else b'') + section(3, vec(u(i) for i in decl))
        if not tabs and rng.random() < 0.6:
            tabs.append(1)
            d += section(4, vec([table(*lim(2**32 - 1))]))
        if not mems and rng.random() < 0.6:
            mems.append(1)
            d += section(5, vec([limits(*lim(65536))]))
        own = [(rng.choice(TYPES), rng.randrange(2)) for _ in range(rng.randrange(4))]
        globs += own
        d += section(6, vec(globaltype(*g) + const(g[0]) + b'\x0b' for g in own))
        sp = [len(funcs), len(tabs), len(mems), len(globs)]
        todo = [(k, i) for k in range(4) for i in range(sp[k])]
        rng.shuffle(todo)
        if rng.random() < 0.3 and todo:
            todo += [rng.choice(todo) for _ in range(2)]                 # the same entity twice
        if rng.random() < 0.05:
            todo.append((rng.randrange(4), rng.randrange(8)))
        if rng.random() < 0.1 and todo:
            k, i = todo.pop()
            todo.insert(0, (k, i + rng.choice(gen.LOST)))
        d += section(7, vec(export('e%d' % i if rng.random() < 0.97 else 'e0', *e) for i, e in enumerate(todo[:rng.choice([0, 1, 3, 8, 20])])))
        d += section(10, vec([body(b'\x00\x0b')] * len(decl)))
        out.append(Case('module', d, nt=1))
    for n in [127, 128, 129, 255, 256, 300] + words.near(3, 500):
        types = [functype([TYPES[(i >> (2 * j)) % 4] for j in range(4)], []) for i in range(n)]
        out.append(Case('module', MAGIC + section(1, vec(types)) + section(2, vec(imp_func('m', str(i), i) for i in range(n)))
                        + section(7, vec(export(str(i), 0, n - 1 - i) for i in range(n))), nt=1))
        out.append(Case('module', MAGIC + section(2, vec(imp_global('m', str(i), TYPES[i * 5 % 4], i % 2) for i in range(n)))
                        + section(6, vec(globaltype(TYPES[i % 4], (i + 1) % 2) + const(TYPES[i % 4]) + b'\x0b' for i in range(n)))
                        + section(7, vec(export(str(i), 3, 2 * n - 1 - i) for i in range(2 * n))), nt=1))
    for a in [0, 1, 127, 128, 255, 256, 65535, 65536, 2**31, 2**32 - 1] + words.near(2, 2**32 - 1):
        for b in (None, a, 65536, 2**32 - 1):
            for ex in (0, 1):
                out.append(Case('module', MAGIC + section(2, vec([imp_table('m', 't', a, b)])) + section(7, vec([export('x', 1, 0)] * ex)), nt=1))
                out.append(Case('module', MAGIC + section(2, vec([imp_mem('m', 't', a, b)])) + section(7, vec([export('x', 2, 0)] * ex)), nt=1))
                out.append(Case('module', MAGIC + section(4, vec([table(a, b)])) + section(7, vec([export('x', 1, 0)] * ex)), nt=1))
                out.append(Case('module', MAGIC + section(5, vec([limits(a, b)])) + section(7, vec([export('x', 2, 0)] * ex)), nt=1))
    for _ in range(3000 if run.thorough else 800):
        out.append(Case('module', gen.Module(rng, size=3).bytes(), nt=1))
        out.append(Case('module', scale.repeats(rng, gen.Module(rng, size=3)).bytes(), nt=1))
    run.check('external types', out)
    run.check('large modules', scale.large(run))
    surroundings(run, 2500)
