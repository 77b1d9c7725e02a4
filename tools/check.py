#!/usr/bin/env python3
"""Decides one property: check.py <id> [--tier quick|thorough] [--replay FILE]

Exit 0: held. Exit 1: violated, with a VIOLATION line. Exit 2: the check itself failed.
"""

import argparse
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import Batch, Case, ToolError, log


# checks that are cheap choose their random inputs several times
ROUNDS = {'C03': 4, 'C04': 4, 'C05': 3, 'C06': 3, 'C07': 4, 'C08': 2, 'C09': 4, 'C10': 4, 'C11': 3, 'C18': 3, 'C19': 2,
          'C20': 2, 'C21': 3, 'C25': 5, 'C27': 4}


class Violation(Exception):
    def __init__(self, replay):
        self.replay = replay


class Run:
    """What a property's check needs: the specification, the implementation, and an account of both."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s-%d' % (prop, seed))
        self.work = tempfile.mkdtemp(prefix='whasm-' + prop + '-')
        self.states = self.transitions = self.traces = 0
        self.model_states = 0
        self.outcomes = {}
        self.groups = {}
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self._harness = None
        self.known = []
        self.pool = [[], []]
        self.held = {False: [], 1: [], 3: []}
        self.round, self.seen, self.edges = 0, set(), {}

    def harness(self):
        if self._harness is None:
            self._harness = core.build_harness()
        return self._harness

    def pick(self, items, quick, thorough=None):
        """At most `quick` of the items (`thorough` of them, or all, in the thorough tier), chosen by the seed."""
        n = quick if not self.thorough else (thorough or len(items))
        return list(items) if len(items) <= n else self.rng.sample(items, n)

    # -- the specification on its own

    def emit(self, module, config=None, env=None, timeout=600):
        """Explores a generator specification; returns the transitions it wrote."""
        key = json.dumps([module, config, env])
        if key in self.edges:
            return list(self.edges[key])
        out = os.path.join(self.work, module + '.edges')
        if os.path.exists(out):
            os.unlink(out)
        e = dict(env or {}, GEN_OUT=out)
        if config is not None:
            e['GEN_CONFIG'] = os.path.join(self.work, 'config.json')
            with open(e['GEN_CONFIG'], 'w') as f:
                json.dump(config, f)
        r = core.tlc(module, e, workers=1, timeout=timeout, xmx='6g')
        if r.violated:
            raise ToolError('the specification %s breaks its own %s' % (module, r.violated))
        self.states += r.distinct
        self.transitions += r.generated
        self.model_states += r.distinct
        edges = []
        with open(out) as f:
            for line in f:
                x = json.loads(line)
                edges.append(json.loads(x) if isinstance(x, str) else x)
        os.unlink(out)
        if ROUNDS.get(self.prop):
            self.edges[key] = edges
        return list(edges)

    def model(self, module, env=None, cfg=None, timeout=600):
        """Checks a specification's own properties."""
        if self.round:
            return
        r = core.tlc(module, env or {}, cfg=cfg, timeout=timeout)
        if r.violated:
            raise ToolError('the specification %s breaks its own %s:\n%s' % (module, r.violated, r.out[-2000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.model_states += r.distinct

    # -- the implementation against the specification

    def check(self, what, cases, preludes=(), kinds=False, **limits):
        """Runs the cases on the library and validates what it reports; raises Violation."""
        seen, unique = set(), []
        for c in cases:
            key = (c.kind, c.pre, c.data)
            if key not in seen:
                seen.add(key)
                unique.append(c)
        cases = unique
        if ROUNDS.get(self.prop):                       # later rounds add what is new
            keys = [hash((c.kind, kinds, self.whole(c, preludes).data)) for c in cases]
            if self.round:
                cases = [c for c, k in zip(cases, keys) if k not in self.seen]
            self.seen.update(keys)
        if not cases:
            return []
        if kinds == 2:
            limits['texts'] = True
        records = core.record(self.harness(), [self.whole(c, preludes) for c in cases], **limits)
        cases = [c for c, r in zip(cases, records) if r is not None]
        records = [r for r in records if r is not None]
        self.validate(what, cases, records, preludes, kinds, limits)
        right = [c for c, r in zip(cases, records) if '"v":1' in r[-4000:]]
        self.keep(right, preludes, True)
        self.keep(cases, preludes, False)
        return list(zip(cases, records))

    def keep(self, cases, preludes, right):
        """Remembers some of the inputs, separately those that are accepted."""
        some = [c for c in cases if c.kind in ('module', 'built', 'stable')]
        self.pool[right] += [self.whole(c, preludes).data for c in (some if len(some) <= 1500 else self.rng.sample(some, 1500))]

    def gather(self, checks, most):
        """Inputs of other checks, at most `most` of each group; nothing is judged here."""
        g = Gather(self)
        for f in checks:
            f(g)
        out = []
        for cases, preludes in g.piles:
            for c in cases if len(cases) <= most else self.rng.sample(cases, most):
                w = self.whole(c, preludes)
                out.append(Case(w.kind, w.data, nt=1, note=c.note))
        return out

    def whole(self, c, preludes):
        """The library always gets the complete input."""
        if c.pre == 0:
            return c
        return Case(c.kind, bytes(preludes[c.pre - 1]) + c.data, c.pre, c.nt, c.note)

    def validate(self, what, cases, records, preludes, kinds, limits):
        b = Batch(self.work, preludes)
        bad, result = b.validate(records, kinds)
        if bad is not None:
            c = cases[bad]
            w = self.whole(c, preludes)
            again = core.record(self.harness(), [w], **limits)[0]
            one, result2 = b.validate([again], kinds)
            history = []
            if one is None:
                first = json.loads(records[bad])
                if first['r'] == 'hang':
                    # alone it finishes: a matter of load, not of the library
                    records = list(records)
                    records[bad] = again
                    return self.validate(what, cases, records, preludes, kinds, limits)
                n = max(1, (len(cases) + core.CORES - 1) // core.CORES)
                history = [self.whole(x, preludes).line() for x in cases[bad - bad % n:bad]]
            self.report(what, dict(kind=c.kind, data=w.data.hex(), pre=c.pre, nt=c.nt, note=c.note,
                                   preludes=[bytes(p).hex() for p in preludes], kinds=kinds,
                                   record=json.loads(records[bad]), alone=json.loads(again),
                                   history=history, invariant=result.violated,
                                   specification=final_state(result.out)))
        self.states += b.states
        self.transitions += b.transitions
        self.traces += len(records)
        self.groups[what] = self.groups.get(what, 0) + len(records)
        for r in records:
            i = r.rindex('"r":"') + 5
            k = r[i:r.index('"', i)]
            j = r.index('"v":', i) + 4
            v = r[j:r.index(',', j)]
            k = {'1': 'accepted', '0': 'invalid'}.get(v, 'malformed' if k == 'err' else 'decoded')
            self.outcomes[k] = self.outcomes.get(k, 0) + 1
        small = [r for c, r in zip(cases, records) if not c.pre and len(r) < 6000]
        self.held[1 if kinds == 2 else kinds] += self.rng.sample(small, min(12, len(small)))
        for i in self.rng.sample(range(len(records)), min(2, len(records))):
            if len(self.samples) < 12:
                c = cases[i]
                d = self.whole(c, preludes).data.hex()
                rec = json.loads(records[i])
                self.samples.append({'group': what, 'type': c.kind, 'input': d if len(d) < 400 else d[:400] + '...',
                                     'result': rec['r'], 'valid': rec['v']})

    def challenge(self):
        """Records that passed, falsified in every way: the specification must reject all of them."""
        n = 0
        for kinds, records in self.held.items():
            if records:
                # and on these the machine itself always halts, and only moves forward
                r = Batch(self.work).validate(records, kinds, cfg='WasmLive.cfg')[1]
                if r.violated:
                    raise ToolError('the specification breaks its own %s' % r.violated)
            bad = [json.dumps(x, separators=(',', ':')) for r in records for x in falsified(self.rng, json.loads(r), kinds)]
            if bad:
                wrong, r = Batch(self.work).validate(bad, kinds, cfg='WasmFalse.cfg')
                if wrong is not None:
                    raise ToolError('a falsified record passes: %s' % bad[wrong][:2000])
                n += len(bad)
        if n:
            self.extra['falsified_records_rejected'] = n

    def report(self, what, details):
        os.makedirs(core.EVIDENCE, exist_ok=True)
        path = os.path.join(core.EVIDENCE, 'replay-%s.json' % self.prop)
        details = dict(details, property=self.prop, group=what, seed=self.seed, tier=self.tier)
        with open(path, 'w') as f:
            json.dump(details, f, indent=1)
        log('%s: the library does not behave as specified (%s)' % (self.prop, what))
        for k in ('kind', 'data', 'note', 'record', 'specification'):
            if k in details:
                log('  %s: %s' % (k, json.dumps(details[k])[:1500]))
        raise Violation(path)

    def evidence(self, wall, violations):
        os.makedirs(core.EVIDENCE, exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples,
               'groups': self.groups, 'outcomes': self.outcomes}
        cov.update(self.extra)
        doc = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
               'coverage': cov, 'wall_s': round(wall, 2), 'violations': violations,
               'assumptions': self.assumptions}
        tmp = os.path.join(core.EVIDENCE, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(doc, f, indent=1)
        os.replace(tmp, os.path.join(core.EVIDENCE, self.prop + '.json'))


class Gather(Run):
    """Collects the inputs of a check instead of running them."""

    def __init__(self, run):
        self.__dict__.update(run.__dict__)
        self.piles, self.pool = [], [[], []]

    def check(self, what, cases, preludes=(), kinds=False, **limits):
        self.piles.append((list(cases), preludes))
        self.keep(cases, preludes, False)

    def model(self, *args, **kwargs):
        pass


def falsified(rng, x, kinds):
    """Variants of a record, each wrong in one place."""
    if kinds == 3:
        yield dict(x, a=2**30)
    if x['r'] == 'err':
        yield dict(x, r='ok', used=len(x['b']))
        yield dict(x, r='crash')
        if kinds == 1 and x['k'][-1] in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'string', 'instr'):
            yield dict(x, e=[x['e'][0] % 10 + 1, x['e'][1]])
    elif x['r'] == 'ok':
        yield dict(x, r='err', e=[1, 0])
        yield dict(x, r='hang')
        yield dict(x, used=x['used'] + 1)
        if x['used']:
            yield dict(x, used=x['used'] - 1)
        if x['v'] >= 0:
            yield dict(x, v=1 - x['v'])
        for f in ('t', 'x'):
            l = x[f]
            if (f == 't' and x['nt']) or (f == 'x' and x['v'] != 1):
                continue
            yield dict(x, **{f: l + [[0]]})
            if l:
                i = rng.randrange(len(l))
                j = rng.randrange(len(l[i]))
                yield dict(x, **{f: l[:-1]})
                yield dict(x, **{f: l[:i] + l[i + 1:]})
                yield dict(x, **{f: l[:i] + [l[i][:j] + [l[i][j] ^ 1] + l[i][j + 1:]] + l[i + 1:]})
                if l[i] != l[-1]:
                    yield dict(x, **{f: l[:i] + [l[-1]] + l[i + 1:-1] + [l[i]]})


def final_state(out):
    """The last state of TLC's counterexample, shortened."""
    i = out.rfind('State ')
    return out[i:i + 1500] if i >= 0 else out[-600:]


def replay(run, path):
    with open(path) as f:
        d = json.load(f)
    if 'data' not in d:
        raise ToolError('nothing to replay in ' + path)
    lines = d.get('history', [])
    cases = []
    for l in lines:
        k, p, n, h = (l.rstrip('\n') + ' ').split(' ')[:4]
        cases.append(Case(k, bytes.fromhex(h), int(p), int(n)))
    cases.append(Case(d['kind'], bytes.fromhex(d['data']), d['pre'], d['nt']))
    recs = core.record(run.harness(), cases, procs=1, texts=d['kinds'] == 2)
    b = Batch(run.work, [bytes.fromhex(p) for p in d['preludes']])
    bad, r = b.validate(recs[-1:], d['kinds'])
    log(recs[-1][:2000])
    if bad is not None:
        log(final_state(r.out))
        raise Violation(path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    import props
    run = Run(a.property, tier, seed)
    start = time.time()
    try:
        if a.property not in props.ALL:
            raise ToolError('no such property: ' + a.property)
        if a.replay:
            replay(run, a.replay)
        else:
            for run.round in range(1 if run.thorough else ROUNDS.get(a.property, 1)):
                props.ALL[a.property](run)
            run.challenge()
            run.evidence(time.time() - start, 0)
        log('%s held: %d traces, %d states, %.1f s %s' % (a.property, run.traces, run.states,
                                                         time.time() - start, json.dumps(run.outcomes)))
        return 0
    except Violation as v:
        if not a.replay:
            run.evidence(time.time() - start, 1)
        print('VIOLATION property=%s replay=%s' % (a.property, v.replay), flush=True)
        return 1
    except ToolError as e:
        log('check error: %s' % e)
        return 2
    except Exception:
        log('check error:\n' + traceback.format_exc())
        return 2
    finally:
        shutil.rmtree(run.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
