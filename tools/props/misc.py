"""C22-C24: stability, the command line tool, and soundness of what is accepted."""

import concurrent.futures
import json
import os
import re
import signal
import subprocess
import tempfile

import core
from core import Batch, Case, ToolError
from wasm import *
import gen
import words
from . import frame, scale, valid
from .around import changed, contexts, surroundings
from .frame import faulty
from .valid import (ins, encode, Host, Probe, hopeless, PLAIN, CONSTS, CALLS, RETS, Walks, branches)


# ----------------------------------------------------------------------------------------- stability

def c22(run):
    rng = run.rng
    cases = []
    # one module, several kinds of iterator, several times
    for _ in range(6000 if run.thorough else 1000):
        m = gen.Module(rng, size=rng.choice([2, 10, 30]))
        d = m.bytes()
        cases.append(Case('stable', d))
        for _ in range(2):
            cases.append(Case('stable', gen.mutate(rng, d, 0)))
        cases.append(Case('stable', d[:rng.randrange(len(d) + 1)]))
        cases.append(Case('stable', d + bytes([rng.randrange(256)])))
    run.check('iterators and repetition', cases)
    families(run)
    histories(run)
    run.check('large modules', scale.large(run))
    surroundings(run, 1500)


def families(run):
    """Modules with the same declarations and different combinations of function bodies."""
    rng = run.rng
    cases, pres = [], []
    trivial = b'\x00\x0b'
    for _ in range(700 if run.thorough else 150):
        n = rng.choice([2, 2, 3, 4, 6])
        m = gen.Module(rng, size=rng.choice([5, 15]), nfuncs=n)
        n = len(m.codes)
        if n < 2:
            continue
        m2 = m.bytes(customs=0)
        good = list(m.parts[10])
        bodies = [[body(trivial), good[i]] for i in range(n)]
        for i in range(n):
            runs, code = m.codes[i]
            for _ in range(3):
                bodies[i].append(body(b''.join(gen.mutate_code(rng, code)), runs))
            # constructs and operands left over, at the end and in the middle
            bodies[i].append(body(b''.join(code[:-1]) + b'\x41\0\x0b', runs))
            bodies[i].append(body(b'\x02\x40\x0b' + trivial, rng.choice([[], [(3, F32)], [(1, I64), (2, F64)]])))
        for _ in range(40):
            pick = [rng.choice(b) if rng.random() < 0.5 else b[rng.randrange(2)] for b in bodies]
            m.parts[10] = pick
            cases.append(Case('module', m.bytes(customs=0), nt=1))
        for i in range(n):                                   # each body alone
            for b in bodies[i]:
                m.parts[10] = [body(trivial)] * n
                m.parts[10][i] = b
                cases.append(Case('module', m.bytes(customs=0), nt=1))
    # functions of the same type in every order, and one faulty function among many
    for ret in RETS:
        host = Host(ret)
        val = b''.join(const(t) for t in ret)
        pool = [val + b'\x0b', b'\x00\x0b', val + b'\x0f\x0b', val + b'\x0c\0\x0b', b'\x02\x40\x0b' + val + b'\x0b', b'\x03\x40\x0b' + val + b'\x0b',
                b'\x41\0\x04\x40\x05\x0b' + val + b'\x0b', b'\x02\x40\x00\x0b' + val + b'\x0b', b'\x20\x01\x21\x01' + val + b'\x0b']
        bad = [val + b'\x41\0\x0b', b'\x42\0\x1a\x1a' + val + b'\x0b', b'\x6a\x1a' + val + b'\x0b', b'\x0c\x05\x0b', b'\x20\x04\x00\x0b', b'\x41\0\x04\x7f\x41\0\x0b\x00\x0b']
        if ret:
            bad.append(b'\x0b')
        for n in [2, 3, 5, 12, 40, 128, 130] + run.pick(words.near(4, 300), 8):
            k = len(pres) + 1
            pres.append(host.prelude(n))
            for _ in range(60 if run.thorough else 14):
                bs = [rng.choice(pool) for _ in range(n)]
                cases.append(Case('module', host.code(bs), k, 1))
                for at in {0, n - 1, rng.randrange(n)}:
                    c = list(bs)
                    c[at] = rng.choice(bad)
                    cases.append(Case('module', host.code(c), k, 1))
                    if rng.random() < 0.3:
                        c[rng.randrange(n)] = rng.choice(bad)
                        cases.append(Case('module', host.code(c), k, 1))
    run.check('combinations of functions', cases, pres)
    # very many functions, one of them faulty
    cases = []
    head = MAGIC + section(1, vec([functype([], []), functype([I32], [I32])]))
    for n in [257, 1025] + ([2049, 4097] if run.thorough else []) + run.pick(words.near(300, 2100), 3, 12):
        for bad in (None, n - 1, n - 1, rng.randrange(n)):
            ts = [rng.randrange(2) for _ in range(n)]
            bs = [b'\x20\0\x0b' if t else b'\x0b' for t in ts]
            if bad is not None:
                bs[bad] = rng.choice([b'\x42\0\x0b', b'\x20\x05\x1a\x00\x0b', b'\x0c\x01\x0b', b'\x6a\x00\x0b'])
            cases.append(Case('module', head + section(3, vec(u(t) for t in ts)) + section(10, vec(body(b) for b in bs)), nt=1))
    run.check('very many functions', cases)
    twins(run)


def twins(run):
    """Functions that are alike but for their type, their variables or their code, next to each other and apart."""
    rng, cases = run.rng, []
    types = [([], []), ([I32], []), ([I64], []), ([], [I32]), ([I32], [I32]), ([F32, I32], [])]
    runs = [[], [(1, I32)], [(1, I64)], [(2, I32)], [(1, F32), (1, I32)], [(0, F64)], [(1, I32), (1, F32)]]
    codes = [b'\x0b', b'\x41\0\x0b', b'\x20\0\x1a\x0b', b'\x20\0\x45\x1a\x0b', b'\x20\0\x0b', b'\x41\0\x21\0\x0b', b'\x20\x01\x45\x1a\x0b',
             b'\x00\x0b', b'\x42\0\x22\0\x1a\x0b', b'\x20\x02\x1a\x0b', b'\x41\0\x0f\x0b', b'\x41\0\x0c\0\x0b', b'\x02\x7f\x20\0\x0b\x1a\x0b']
    fine = [(t, r, c) for t in range(6) for r in range(7) for c in range(13)]

    def put(fs):
        cases.append(Case('module', MAGIC + section(1, vec(functype(*t) for t in types)) + section(3, vec(u(t) for t, _, _ in fs))
                          + section(10, vec(body(codes[c], runs[r]) for _, r, c in fs)), nt=1))
    for f in fine:
        put([f])
    for f in fine:
        for k in range(3):
            for _ in range(8 if run.thorough else 2):
                g = list(f)
                g[k] = rng.randrange((6, 7, 13)[k])
                g = tuple(g)
                put([f, g])
                put([f] * rng.randint(1, 3) + [rng.choice(fine[:13])] * rng.randrange(2) + [g] * rng.randint(1, 2))
    run.check('functions that are nearly alike', cases)


def outcome(record):
    """A record without what may differ from run to run."""
    x = json.loads(record)
    x.pop('a')
    return x


def histories(run):
    """The same cases after different others, in one process."""
    rng = run.rng
    cases = []
    for _ in range(3000 if run.thorough else 800):
        d = gen.Module(rng, size=rng.choice([2, 8, 20])).bytes()
        cases += [Case('module', d), Case('module', gen.mutate(rng, d, 0))]
        cases.append(Case(rng.choice(['u32', 'i64', 'string', 'vec.u32', 'instr', 'functype', 'import']), bytes(rng.randrange(256) for _ in range(rng.randrange(12)))))
    first = run.check('histories', cases)
    seen = {}
    for _, r in first:
        x = json.loads(r)
        seen[('.'.join(x['k']), bytes(x['b']))] = outcome(r)
    for _ in range(3):
        order = list(seen)
        rng.shuffle(order)
        again = core.record(run.harness(), [Case(k, b) for k, b in order], procs=3)
        for (k, b), r in zip(order, again):
            if r is not None and outcome(r) != seen[(k, b)] and json.loads(r)['r'] != 'hang':
                run.report('histories', dict(kind=k, data=b.hex(), pre=0, nt=0, preludes=[], kinds=False, record=json.loads(r),
                                             note='differs from the first time', first=seen[(k, b)]))
        run.extra['repetitions'] = run.extra.get('repetitions', 0) + len(order)


# ---------------------------------------------------------------------------------- command line tool

STAGES = [('arguments', r'\bargument'), ('open', r'\bopen'), ('read', r'\bread'), ('parse', r'\bpars(?:e|ing)|\bdecod'),
          ('validate', r'\bvalidat')]


def said(text, path):
    """The stages named in the first line of a diagnostic."""
    text = text.replace(path, '') if len(path) > 7 else text
    line = next((l for l in text.split('\n') if l.strip()), '').lower()
    return [s for s, pat in STAGES if re.search(pat, line)]


def squeeze(text):
    return re.sub(r'[\s,]+', '', text)


def c23(run):
    rng = run.rng
    cli = core.build_cli()
    scen = run.emit('GenCli')
    base = os.path.join(run.work, 'f')
    os.mkdir(base)

    # files; which class each belongs to is decided by the specification of the format
    cases = []
    for _ in range(1500 if run.thorough else 320):
        m = gen.Module(rng, size=rng.choice([3, 10, 20]))
        d = m.bytes()
        cases.append(Case('module', d, nt=1))
        k = rng.randrange(4)
        if k == 0:
            d = gen.mutate(rng, d, 0)
        elif k == 1:
            d = d[:rng.randrange(len(d))]
        elif k == 2:
            d += bytes([rng.randrange(256)])
        elif m.codes:
            i = rng.randrange(len(m.codes))
            runs, code = m.codes[i]
            m.parts[10][i] = body(b''.join(gen.mutate_code(rng, code)), runs)
            d = m.bytes()
        cases.append(Case('module', d, nt=1))
    fill = section(0, name('pad') + bytes(rng.randrange(256) for _ in range(1500)))
    for n in (3, 6, 22, 45, 90):                                  # larger than any buffer
        for tail in (b'', section(5, vec([limits(2, 1)])), b'\x05\x01', section(5, vec([limits(1)])), b'\x0c\x00'):
            cases.append(Case('module', MAGIC + fill * n + tail, nt=1))
    cases += [Case('module', x, nt=1) for x in (b'', b'\0', MAGIC[:4], MAGIC[:7], MAGIC, MAGIC + b'\0', b'\n' + MAGIC, MAGIC + b'\n', b'wasm', b'\xef\xbb\xbf' + MAGIC)]
    records = run.check('contents', cases)
    files = {'malformed': [], 'invalid': [], 'valid': []}
    for c, r in records:
        x = json.loads(r)
        if x['r'] in ('crash', 'hang'):
            continue
        files['malformed' if x['r'] != 'ok' else 'valid' if x['v'] == 1 else 'invalid'].append(c.data)

    names = ['m%d.wasm', 'with space %d', '-%d.wasm', '--%d', 'ü%d', '%d', '-p%d', "quote'%d", b'raw\xff%d', '.%d', 'print%d', '--print%d']
    names += [t.replace('%', '').replace('/', '') + '%d' for t in words.TEXTS]
    count = [0]

    def path(content):
        count[0] += 1
        n = names[count[0] % len(names)]
        n = (n.encode() if isinstance(n, str) else n) % count[0]
        if content is not None:
            with open(os.path.join(base.encode(), n), 'wb') as f:
                f.write(content)
        return n
    jobs = []
    for s in scen:
        for _ in range(4 if run.thorough else 1):
            c = s['class']
            if c == 'absent':
                n = path(None)
            elif c == 'unreadable':
                n = b'dir%d' % len(jobs)
                os.mkdir(os.path.join(base.encode(), n))
            else:
                n = path(rng.choice(files[c]))
            jobs.append((s, n))
    for c in files:                                               # every file once plainly, once printed
        for d in files[c]:
            n = path(d)
            jobs.append(({'args': ['file'], 'class': c}, n))
            jobs.append(({'args': rng.choice([['short', 'file'], ['file', 'long']]), 'class': c}, n))

    # names that are exactly what other tools have options or meanings for
    for t in sorted({'-', '--', '-h', '--help', '-v', '-V', '--version', '-P', '-pp', '--Print', '-p ', ' -p', '--print=1', '-p=1', '-print', '--p', '---print', '-q',
                     '-o', '-d', '-n', '-i', '--quiet', '--verbose', '+p', '/p', '@x', '*', '?', '~', '#', 'help', 'stdin', 'a.wat', 'a.txt', 'A.WASM'} | set(words.TEXTS)):
        if t in ('', '.', '..', '-p', '--print') or '/' in t or '\0' in t or len(t.encode()) > 200 or said(t, ''):
            continue
        for c in ('valid', 'invalid', 'malformed', 'absent'):
            d = b'in%d' % len(jobs)
            os.mkdir(os.path.join(base.encode(), d))
            if c != 'absent':
                with open(os.path.join(base.encode(), d, t.encode()), 'wb') as f:
                    f.write(rng.choice(files[c]))
            jobs.append(({'args': rng.choice([['file'], ['file'], ['long', 'file'], ['file', 'short']]), 'class': c}, os.path.join(d, t.encode())))

    def go(job):
        s, n = job
        d, arg = os.path.split(os.path.join(base.encode(), n))
        if d == base.encode() and not rng_bit(n):
            arg = os.path.join(d, arg)
        argv = [{'short': b'-p', 'long': b'--print', 'empty': b'', 'file': arg}[a] for a in s['args']]
        try:
            p = subprocess.run([cli] + argv, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return dict(s, status=999, said=[], out=2, text='', argv=[a.decode('latin1') for a in argv])
        text = p.stdout.decode('utf8', 'replace')
        both = text + p.stderr.decode('utf8', 'replace')
        status = p.returncode if p.returncode >= 0 else 256 - p.returncode
        return dict(s, status=status, said=said(both, arg.decode('utf8', 'replace')), out=2 if both else 0, text=both,
                    argv=[a.decode('latin1') for a in argv])
    with concurrent.futures.ThreadPoolExecutor(core.CORES) as pool:
        got = list(pool.map(go, jobs))
    # is what was printed the module? compared with the library's own rendering, blanks aside
    printed = [i for i, g in enumerate(got) if g['text'] and g['status'] == 0]
    for k in range(0, len(printed), 50):
        part = printed[k:k + 50]
        p = subprocess.run([run.harness()] + [os.path.join(base.encode(), jobs[i][1]) for i in part], stdout=subprocess.PIPE, timeout=120)
        shown = p.stdout.decode('utf8', 'replace').split('\0')
        for i, x in zip(part, shown):
            if x.strip() and squeeze(x) == squeeze(got[i]['text']):
                got[i]['out'] = 1
    recs = [json.dumps({k: g[k] for k in ('args', 'class', 'status', 'said', 'out')}) for g in got]
    b = Batch(run.work)
    bad, r = b.validate(recs, module='CliTrace')
    if bad is not None:
        with open(os.path.join(base.encode(), jobs[bad][1]), 'rb') if got[bad]['class'] not in ('absent', 'unreadable') else open(os.devnull, 'rb') as f:
            content = f.read()
        run.report('command line tool', dict(argv=got[bad]['argv'], content=content.hex(), observed=json.loads(recs[bad]), output=got[bad]['text'][:1000]))
    run.states += b.states
    run.transitions += b.transitions
    run.traces += len(recs)
    run.groups['runs of the tool'] = len(recs)
    run.extra['tool_runs_by_file'] = {c: sum(1 for g in got if g['class'] == c) for c in ('absent', 'unreadable', 'malformed', 'invalid', 'valid')}


def unique(cases):
    seen, out = set(), []
    for c in cases:
        if (c.kind, c.pre, c.data) not in seen:
            seen.add((c.kind, c.pre, c.data))
            out.append(c)
    return out


def rng_bit(n):
    """Relative or absolute path, except that names that are options or empty cannot be relative."""
    return sum(n) % 2 == 0


# ----------------------------------------------------------------------------------------- soundness

def instrs(code):
    """Splits a function body into instructions [op, bt, n]; None if that is not possible."""
    out, i = [], 0

    def leb():
        nonlocal i
        v = sh = 0
        while True:
            b = code[i]
            i += 1
            v |= (b & 127) << sh
            sh += 7
            if not b & 128:
                return min(v, 2**30)
    try:
        while i < len(code):
            op = code[i]
            i += 1
            bt, n = VOID, []
            if op in (2, 3, 4):
                bt = code[i]
                i += 1
            elif op in (0x0C, 0x0D, 0x10, 0x20, 0x21, 0x22, 0x23, 0x24, 0x3F, 0x40):
                n = [leb()]
            elif op == 0x11 or 0x28 <= op <= 0x3E:
                n = [leb(), leb()]
            elif op == 0x0E:
                n = [leb() for _ in range(leb())] + [leb()]
            elif op in (0x41, 0x42):
                leb()
            elif op == 0x43:
                i += 4
            elif op == 0x44:
                i += 8
            out.append({'op': op, 'bt': bt, 'n': n})
        return out if i == len(code) else None
    except IndexError:
        return None


class Pile:
    """Bodies in their modules, with the context the specification needs to execute them."""

    def __init__(self):
        self.ctxs, self.items = {}, []

    def context(self, c):
        return self.ctxs.setdefault(json.dumps(c), len(self.ctxs) + 1)

    def add(self, ctx, data, codes):
        """A module, and its bodies to execute as (context, bytes), or None for all of them."""
        self.items.append((data, codes))


def c24(run):
    rng = run.rng
    run.model('SoundCheck', {'SOUND_DEEP': '1' if run.thorough else '0'})
    pile = Pile()
    hosts(run, pile)
    randoms(run, pile)
    # what the checks of the validation rules use, and the same moved to other surroundings
    more = [c.data for c in run.gather([valid.c13, valid.c14, valid.c15, valid.c16, valid.c17, valid.c20], 3000 if run.thorough else 700) if len(c.data) < 6000]
    more += [d for d in (changed(rng, rng.choice(more)) for _ in range(20000 if run.thorough else 3000)) if d and len(d) < 12000]
    for d in dict.fromkeys(more):
        pile.add(None, d, None)
    accepted(run, pile)


def hosts(run, pile):
    """Bodies from the transitions of the validator, right and wrong."""
    rng = run.rng
    blocks = [ins(o, bt) for o in (2, 3, 4) for bt in (VOID, I32, I64)] + [ins(5), ins(0x0B)]
    plans = [(rng.choice(RETS), PLAIN, 2, 1, 6000),
             (rng.choice(RETS[:3]), blocks + CONSTS[:2] + [ins(0x1A), ins(0x0F), ins(0)] + branches(2), 2, 2, 25000),
             ([], CALLS + CONSTS + [ins(0x1A), ins(0x1B)], 2, 1, 4000),
             ([I32], [ins(o, VOID, i) for o in (0x20, 0x21, 0x22) for i in range(5)] + [ins(o, VOID, i) for o in (0x23, 0x24) for i in range(7)] + CONSTS
              + [ins(0x28, VOID, 0, 0), ins(0x37, VOID, 0, 0), ins(0x3F, VOID, 0), ins(0x40, VOID, 0)], 2, 1, 5000)]
    if run.thorough:
        plans = [(ret, a, h + 1 if d == 1 else h, d, n * 4) for _, a, h, d, n in plans for ret in RETS[:3]]
        plans.append(([I32], [ins(2, I32), ins(3, VOID), ins(4, I32), ins(5), ins(0x0B), ins(0x41), ins(0x1A)] + branches(3), 2, 3, 40000))
    for ret, alphabet, height, depth, limit in plans:
        host = Host(ret)
        es = run.emit('GenBody', {'ctx': host.context(), 'alphabet': alphabet, 'height': height, 'depth': depth}, timeout=1500)
        states = {(): {'ctrls': [{'op': 0, 'out': host.ret}]}}
        for e in es:
            states[tuple(e['p'])] = e['v']
        enc = [encode(i) for i in alphabet]
        pre, ctx = host.prelude(1), pile.context(host.context())
        ways = Walks(rng, host, es)
        for e in es if len(es) <= limit else rng.sample(es, limit):
            code = b''.join(enc[i - 1] for i in e['p'])
            v = e['v']
            if v['ok'] and not v['ctrls']:
                bodies = [code]
            elif v['ok']:
                p = Probe(v)
                bodies = [code + x for x in [p.good()] + p.bad(rng, 30)]
            else:
                # wrong already; one that keeps going, one that closes with constants
                src = states[tuple(e['p'][:-1])]
                bodies = [code + hopeless(src['ctrls'], alphabet[e['p'][-1] - 1])]
                bodies += [code + Probe(src).close()] if 'opds' in src and src['ctrls'] else []
            for b in bodies:
                pile.add(None, pre + host.code([b]), [(ctx, b)])
        for _ in range(limit):
            p, before, v = ways.walk(rng.randint(4, 16))
            code = b''.join(enc[i - 1] for i in p)
            if v['ok'] and not v['ctrls']:
                bodies = [code]
            elif v['ok']:
                bodies = [code + x for x in Probe(v).bad(rng, 30)]
            else:
                bodies = [code + hopeless(before['ctrls'], alphabet[p[-1] - 1])]
            for b in bodies:
                pile.add(None, pre + host.code([b]), [(ctx, b)])


def randoms(run, pile):
    rng = run.rng
    for _ in range(4000 if run.thorough else 700):
        m = gen.Module(rng, size=rng.choice([5, 15, 30]), nfuncs=rng.choice([1, 1, 2]))
        base = {'types': m.types, 'funcs': [m.types[t] for t in m.funcs], 'ntab': m.ntab, 'nmem': m.nmem, 'globs': m.globals}
        own = m.funcs[len(m.funcs) - len(m.codes):]
        ctx = []
        for t, (runs, code) in zip(own, m.codes):
            p, q = m.types[t]
            ctx.append(pile.context(dict(base, locals=[(x, 1) for x in p] + [(x, n) for n, x in runs if n], ret=q)))
        good = list(m.parts[10])
        pile.add(None, m.bytes(customs=0), [(c, b''.join(code)) for c, (_, code) in zip(ctx, m.codes)])
        for _ in range(6):
            k = rng.randrange(len(m.codes)) if m.codes else None
            if k is None:
                break
            runs, code = m.codes[k]
            c = b''.join(gen.mutate_code(rng, code))
            m.parts[10] = list(good)
            m.parts[10][k] = body(c, runs)
            pile.add(None, m.bytes(customs=0), [(ctx[k], c)])


def accepted(run, pile):
    """Executes what the library accepted."""
    recs = core.record(run.harness(), [Case('module', d, nt=1) for d, _ in pile.items])
    work, src = [], []
    for (d, codes), r in zip(pile.items, recs):
        if r is None:
            continue
        x = json.loads(r)
        k = {1: 'accepted', 0: 'invalid'}.get(x['v'], 'malformed')
        run.outcomes[k] = run.outcomes.get(k, 0) + 1
        if x['v'] != 1:
            continue
        if codes is None:
            try:
                codes = [(pile.context(c), code) for c, code in contexts(d)]
            except (IndexError, ValueError):
                # accepted with declarations that make no sense, which other checks judge
                continue
        for ctx, code in codes:
            i = instrs(code)
            if i is None:
                run.report('accepted bodies', dict(kind='module', data=d.hex(), pre=0, nt=1, preludes=[], kinds=False,
                                                   note='accepted, but it is no sequence of instructions', record=x))
            work.append(json.dumps({'ctx': ctx, 'code': i}))
            src.append((d, code))
    if not work:
        raise ToolError('the library accepts nothing')
    path = os.path.join(run.work, 'ctx.ndjson')
    with open(path, 'w') as f:
        for c in pile.ctxs:
            f.write(c + '\n')
    b = Batch(run.work)
    bad, r = b.validate(work, module='SoundTrace', extra={'SOUND_CTX': path})
    if bad is not None:
        d, code = src[bad]
        from check import final_state
        run.report('accepted bodies', dict(kind='module', data=d.hex(), pre=0, nt=1, preludes=[], kinds=False, note='accepted, but execution goes wrong',
                                           record={'v': 1}, code=code.hex(), specification=final_state(r.out)))
    run.states += b.states
    run.transitions += b.transitions
    run.traces += len(work)
    run.groups['accepted bodies executed'] = len(work)
    for i in run.rng.sample(range(len(work)), min(3, len(work))):
        run.samples.append({'group': 'accepted bodies executed', 'code': src[i][1].hex()[:400]})


# --------------------------------------------------------------------------------- modules in memory

STRAY_END = b'\x06'


def closed(code):
    """The bracketing of code with markers: the last instruction, and no other, closes the function."""
    depth = 1
    for k, i in enumerate(code):
        if depth == 0:
            return False
        if i[0] in (2, 3, 4):
            depth += 1
        elif i[0] == 0x0B:
            depth -= 1
    return depth == 0


def c26(run):
    rng = run.rng
    cases, pres = [], []
    # whole modules
    for _ in range(4000 if run.thorough else 700):
        m = gen.Module(rng, size=rng.choice([2, 8, 20]), nfuncs=rng.choice([1, 1, 2, 3]))
        cases.append(Case('built', m.bytes(customs=0), nt=1))
        good = list(m.parts[10])
        for _ in range(8):
            k = rng.randrange(len(m.codes))
            runs, code = m.codes[k]
            c = list(code)
            for _ in range(rng.choice([1, 1, 1, 2])):
                at = rng.randrange(len(c))
                what = rng.randrange(4)
                if what == 0:
                    c.insert(at, STRAY_END)
                elif what == 1:
                    c.insert(at, b'\x05')
                elif what == 2:
                    blocks = [j for j, i in enumerate(c) if i[0] in (2, 3, 4) and i[1] != 0x41]
                    if blocks:
                        j = rng.choice(blocks)
                        bt = [c[j][1]] if c[j][1] != VOID else []
                        bt = rng.choice([bt, bt, bt * 2, bt + [I32], [rng.choice(TYPES)] * rng.randrange(4)])
                        c[j] = c[j][:1] + b'\x41' + u(len(bt)) + bytes(bt)
                else:
                    c = gen.mutate_code(rng, c)
            if closed(c):
                m.parts[10] = list(good)
                m.parts[10][k] = body(b''.join(c), runs)
                cases.append(Case('built', m.bytes(customs=0), nt=1))
        m.parts[10] = good
        for part in (6, 9, 11):                                # constant expressions
            if m.parts[part]:
                keep = m.parts[part]
                for x in (b'\x05', STRAY_END, b'\x01', b'\x02\x40\x0b', b'\x02\x41\x02\x7f\x7f\x0b'):
                    m.parts[part] = [e.replace(b'\x0b', x + b'\x0b', 1) if e.count(b'\x0b') == 1 else e for e in keep]
                    cases.append(Case('built', m.bytes(customs=0), nt=1))
                m.parts[part] = keep
    run.check('modules', cases)

    # every short body with markers
    cases = []
    one = [b'\x01', b'\x41\0', b'\x1a', b'\x00', b'\x0c\0', b'\x05', STRAY_END]
    for ret in RETS[:2]:
        host = Host(ret)
        pres.append(host.prelude(1))
        k = len(pres)
        for code in markers(one, 6 if run.thorough else 5):
            cases.append(Case('built', host.code([b''.join(code)]), k, 1))
        # lists of results, with matching and other contents
        long = [[I32] * n for n in [4, 5, 8, 16, 127, 128, 129, 255, 256, 257] + run.pick(words.near(6, 600), 12)]
        for op in (2, 3, 4):
            for bt in [[], [I32], [F64]] + [[a, b] for a in TYPES for b in TYPES] + [[I32] * 3, [I64, I32, F32]] + long:
                head = (b'\x41\0' if op == 4 else b'') + bytes([op]) + b'\x41' + u(len(bt)) + bytes(bt)
                vals = b''.join(const(t) for t in bt)
                arm = b'\x05' + vals if op == 4 else b''
                tail = b'\x1a' * len(bt) + b''.join(const(t) for t in ret) + b'\x0b'
                for inner in (vals, b'\x00', vals + b'\x0c\0', b''):
                    cases.append(Case('built', host.code([head + inner + arm + b'\x0b' + tail]), k, 1))
                    cases.append(Case('built', host.code([head + inner + arm + b'\x0b\x00\x0b']), k, 1))
    cases = run.pick(cases, 15000, 90000)
    run.check('markers and results', cases, pres)
    surroundings(run, 2000, kind='built')
    # what the other checks validate, without going through the decoder
    pile = run.gather([valid.c13, valid.c14, valid.c15, valid.c16, valid.c17, valid.c18, valid.c19, valid.c20, valid.c21],
                      1500 if run.thorough else 250)
    for big in [1, 2, 127, 128, 255, 256, 2**16, 2**24 + 1, 2**31 - 1, 2**31, 2**32 - 1] + run.pick(words.near(3, 2**32 - 1), 6, 60):
        pile += [Case('module', d) for d in frame.hostile(rng, big)]
    host = Host([])
    pre = host.prelude(1)
    for op in range(256):                                       # every instruction with numbers of all sizes
        tables = [b'\x0e' + vec(u(x) for x in t[:-1]) + u(t[-1]) for x in frame.EDGE32 for t in ([x, 0], [0, x, 0], [x, 1], [0, x, 1, 0])]
        for i in run.pick(frame.immediates(rng, op), 40, 300) + (tables if op == 0x0E else []):
            for code in (b'\x00' + i + b'\x00', b'\x02\x7f' + b''.join(const(t) for t in rng.choices(TYPES, k=3)) + i + b'\x00\x0b\x1a'):
                pile.append(Case('module', pre + host.code([code + b'\x0b'])))
    pile = [c for c in unique(pile) if c.kind == 'module' and len(c.data) < 100000]
    decoded = core.record(run.harness(), pile)
    run.check('inputs of the other checks', [Case('built', c.data, nt=1) for c, r in zip(pile, decoded) if r and '"r":"err"' not in r])


def markers(one, length):
    """Every closed body of up to so many instructions."""
    def go(code, depth, left):
        if depth == 0:
            yield code
            return
        if left < depth:
            return
        yield from go(code + [b'\x0b'], depth - 1, left - 1)
        if left == depth:
            return
        for i in one:
            yield from go(code + [i], depth, left - 1)
        if left >= depth + 2:
            for i in (b'\x02\x40', b'\x02\x7f', b'\x03\x40', b'\x04\x40', b'\x04\x7f'):
                yield from go(code + [i], depth + 1, left - 1)
    return go([], 1, length)


# ------------------------------------------------------------------------------------- diagnostics

def c27(run):
    rng = run.rng
    records = run.check('diagnostics of the library', faulty(run), kinds=2)
    # the tool passes them on
    cli = core.build_cli()
    wrong = {}
    for c, r in records:
        if c.kind == 'module':
            x = json.loads(r)
            if x['r'] == 'err':
                wrong.setdefault(tuple(x['e']), []).append((c, x))
    jobs = [j for k in sorted(wrong) for j in run.pick(wrong[k], 4, 20)]

    def go(job):
        i, (c, x) = job
        path = os.path.join(run.work, 'f%d.wasm' % i)
        with open(path, 'wb') as f:
            f.write(c.data)
        try:
            p = subprocess.run([cli, path], cwd=run.work, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            text = p.stdout.decode('utf8', 'replace').replace(path, '').lower()
        except subprocess.TimeoutExpired:
            text = ''
        os.unlink(path)
        return json.dumps(dict(x, m=list(text.encode())), separators=(',', ':'))
    with concurrent.futures.ThreadPoolExecutor(core.CORES) as pool:
        told = list(pool.map(go, enumerate(jobs)))
    b = Batch(run.work)
    bad, r = b.validate(told, 2)
    if bad is not None:
        c = jobs[bad][0]
        run.report('diagnostics of the tool', dict(content=c.data.hex(), output=bytes(json.loads(told[bad])['m']).decode(),
                                                   expected=jobs[bad][1]['e']))
    run.states += b.states
    run.transitions += b.transitions
    run.traces += len(told)
    run.groups['diagnostics of the tool'] = len(told)
    run.extra['faults_told_apart'] = len(wrong)
