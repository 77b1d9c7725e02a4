"""Running the library on cases, and TLC on the specification."""

import concurrent.futures
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, '.build')
EVIDENCE = os.path.join(VERIF, 'evidence')
REPO = '/repo'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4


class ToolError(Exception):
    """Something went wrong that says nothing about the library."""


def log(*args):
    print(*args, flush=True)


# ---------------------------------------------------------------------------------------- building

def digest():
    """Identifies the current sources."""
    h = hashlib.sha256()
    for top, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
        for name in sorted(files):
            if name.endswith(('.rs', '.toml')):
                path = os.path.join(top, name)
                h.update(path.encode() + b'\0')
                with open(path, 'rb') as f:
                    h.update(f.read())
    return h.hexdigest()


def cargo(args, target, cwd):
    # cargo goes by modification times; forget what was built from other sources
    stamp = os.path.join(BUILD, target + '.digest')
    now = digest()
    before = open(stamp).read() if os.path.exists(stamp) else ''
    if now != before:
        for d in glob.glob(os.path.join(BUILD, target, 'debug', '.fingerprint', '*')):
            shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, target), CARGO_NET_OFFLINE='true')
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'] + args, cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
    if p.returncode != 0:
        raise ToolError('build failed in %s:\n%s' % (cwd, p.stdout[-4000:]))
    with open(stamp, 'w') as f:
        f.write(now)


def build_harness():
    cargo([], 'harness', os.path.join(VERIF, 'harness'))
    return os.path.join(BUILD, 'harness', 'debug', 'whasm-record')


def build_cli():
    """Builds the command line tool from a copy of the sources, to leave /repo alone."""
    src = os.path.join(BUILD, 'cli-src')
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(REPO, src, ignore=shutil.ignore_patterns('target', '.git'))
    if not os.path.exists(os.path.join(src, 'Cargo.lock')):
        shutil.copy(os.path.join(VERIF, 'harness', 'Cargo.lock.workspace'), os.path.join(src, 'Cargo.lock'))
    cargo(['-p', 'parser'], 'cli', src)
    return os.path.join(BUILD, 'cli', 'debug', 'parser')


# --------------------------------------------------------------------------------------- recording

class Case:
    __slots__ = ('kind', 'pre', 'nt', 'data', 'note')

    def __init__(self, kind, data, pre=0, nt=0, note=''):
        self.kind, self.data, self.pre, self.nt, self.note = kind, bytes(data), pre, nt, note

    def line(self):
        return '%s %d %d %s\n' % (self.kind, self.pre, self.nt, self.data.hex())


def _limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def _run(binary, lines, timeout, mem, stack_mb, texts):
    env = dict(os.environ, RECORD_STACK_MB=str(stack_mb))
    env.pop('RECORD_TEXTS', None)
    if texts:
        env['RECORD_TEXTS'] = '1'
    env.pop('RUST_BACKTRACE', None)
    env['RECORD_FLUSH'] = '1'
    with tempfile.TemporaryFile() as inp, tempfile.TemporaryFile() as out:
        inp.write(''.join(lines).encode())
        inp.seek(0)
        try:
            code = subprocess.run([binary], stdin=inp, stdout=out, stderr=subprocess.DEVNULL, env=env,
                                  timeout=timeout, preexec_fn=_limits(mem)).returncode
        except subprocess.TimeoutExpired:
            code = 'timeout'
        out.seek(0)
        got = out.read().decode().split('\n')
    if got and got[-1] == '':
        got.pop()
    elif got:
        got.pop()                                   # an incomplete line
    if code == 3:
        raise ToolError('the recorder does not know a type it was given')
    return code, got


def _record_chunk(binary, cases, timeout, mem, stack_mb, texts):
    lines = [c.line() for c in cases]
    done, lost = [], 0
    while len(done) < len(lines):
        code, got = _run(binary, lines[len(done):], timeout, mem, stack_mb, texts)
        done += got
        if code == 0:
            if len(done) != len(lines):
                raise ToolError('recorder returned %d records for %d cases' % (len(done), len(lines)))
            break
        if len(done) == len(lines):
            break
        if lost == 3:
            # that the library does not survive is established; the rest would only take time
            done += [None] * (len(lines) - len(done))
            break
        if code == 'timeout' and len(lines) > 1:
            code, got = _run(binary, lines[len(done):len(done) + 1], timeout / 2, mem, stack_mb, texts)
            if code == 0:                           # the others took the time
                done += got
                continue
        c = cases[len(done)]
        done.append(json.dumps(dict(k=(c.kind if c.kind != 'stable' else 'module').split('.'), pre=c.pre,
                                    nt=c.nt, b=list(c.data), r='hang' if code == 'timeout' else 'crash',
                                    used=0, e=[0, 0], v=-1, a=0, t=[], x=[], m=[]), separators=(',', ':')))
        lost += 3 if code == 'timeout' else 1
    return done


def record(binary, cases, timeout=60, mem=3 << 30, stack_mb=512, procs=CORES, texts=False):
    """Runs the cases; returns one JSON line per case, or None for cases left out after others went wrong."""
    n = max(1, (len(cases) + procs - 1) // procs)
    chunks = [cases[i:i + n] for i in range(0, len(cases), n)]
    with concurrent.futures.ThreadPoolExecutor(procs) as pool:
        parts = list(pool.map(lambda c: _record_chunk(binary, c, timeout, mem, stack_mb, texts), chunks))
    return [x for p in parts for x in p]


# --------------------------------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, code, out):
        self.code, self.out = code, out
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.violated = None
        for pat in (r'Error: Invariant (\S+) is violated', r'Error: (?:Action|Temporal) propert\S+ (\S+)? ?(?:is|were) violated',
                    r'Error: Temporal properties were (violated)', r'Error: (Deadlock) reached'):
            v = re.findall(pat, out)
            if v:
                self.violated = v[0]
                break


def tlc(module, env=None, workers=CORES, timeout=800, args=(), cfg=None, xmx='10g'):
    """Runs TLC in a scratch directory. Returns its result, or raises ToolError if it could not decide."""
    meta = tempfile.mkdtemp(prefix='tlc-')
    try:
        cmd = ['java', *(('-XX:+UseParallelGC',) if workers > 1 else ('-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1')), '-Xmx' + xmx, '-Xss512m', '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-nowarning',
               '-config', os.path.join(SPEC, cfg or module + '.cfg')] + list(args) + \
              [os.path.join(SPEC, module + '.tla')]
        try:
            p = subprocess.run(cmd, cwd=meta, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC ran out of time on ' + module)
        r = TlcResult(p.returncode, p.stdout)
        if p.returncode != 0 and r.violated is None:
            raise ToolError('TLC failed on %s (%s):\n%s' % (module, p.returncode, p.stdout[-3000:]))
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


class Batch:
    """Cases recorded from the library, and their validation against the specification."""

    def __init__(self, work, preludes=()):
        self.work = work
        self.preludes = [bytes(p) for p in preludes]
        self.states = self.transitions = self.traces = 0

    def validate(self, records, kinds=False, module='Wasm', cfg=None, extra=None, timeout=800):
        """Returns the index of a record that is not a behaviour of the specification, or None.

        TLC's workers contend on one state queue, so the records are split between processes instead.
        """
        pre = os.path.join(self.work, 'preludes.ndjson')
        with open(pre, 'w') as f:
            for p in self.preludes or [b'\0asm\x01\0\0\0']:
                f.write(json.dumps({'b': list(p)}) + '\n')
        shards = max(1, min(CORES, max(len(records) // 200, sum(map(len, records)) // 400000)))
        order = [list(range(i, len(records), shards)) for i in range(shards)]

        def run(idx):
            fd, path = tempfile.mkstemp(dir=self.work, suffix='.ndjson')
            with os.fdopen(fd, 'w') as f:
                for i in idx:
                    f.write(records[i] + '\n')
            env = {'WHASM_CASES': path, 'WHASM_PRELUDES': pre, 'WHASM_KINDS': str(int(kinds))}
            env.update(extra or {})
            r = tlc(module, env, workers=1, cfg=cfg, timeout=timeout, xmx='3g')
            os.unlink(path)
            bad = None
            if r.violated is not None:
                ids = re.findall(r'cid (?:\|->|=) (\d+)', r.out)
                if not ids:
                    raise ToolError('TLC reported %s without a case:\n%s' % (r.violated, r.out[-3000:]))
                bad = idx[int(ids[-1]) - 1]
            return bad, r

        with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
            results = list(pool.map(run, order))
        for _, r in results:
            self.states += r.distinct
            self.transitions += r.generated
        self.traces += len(records)
        for bad, r in results:
            if bad is not None:
                return bad, r
        return None, results[0][1]
