"""Shared machinery of the checks: build, run the real code, run TLC, report."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
RUN = os.path.join(VERIF, '.run')
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def pick(quick, thorough):
    return thorough if THOROUGH else quick


# ---------------------------------------------------------------- building

def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', 'node_modules'))
        for f in sorted(files):
            if f.endswith(('.rs', '.toml', '.pest', '.lock')):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def forget_stale(target, always=False):
    """Cargo compares times; make it rebuild whenever the contents changed."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, 'repo.sha256')
    cur = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if always or old != cur:
        fp = os.path.join(target, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r'(y86|sim_macro|sim-macro|binutils|vh|vd)', d):
                    shutil.rmtree(os.path.join(fp, d))
        with open(stamp, 'w') as f:
            f.write(cur)


def cargo(args, what, target):
    """The simulator is a dylib: its file has the same name whatever it was built
    for, so every kind of build has a target directory of its own."""
    t = time.time()
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
    p = subprocess.run(['cargo'] + args, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-4000:])
        raise BuildError('cannot build ' + what + '\n' + p.stdout)
    log(f'built {what} in {time.time() - t:.1f}s')


def build_harness():
    forget_stale(f'{BUILD}/h')
    cargo(['build', '--offline', '--manifest-path', f'{VERIF}/harness/Cargo.toml'], 'harness', f'{BUILD}/h')
    return f'{BUILD}/h/debug/vh'


def build_bins():
    """The command-line tools, from /repo's tree."""
    forget_stale(f'{BUILD}/b')
    cargo(['build', '--offline', '--bins', '--manifest-path', f'{REPO}/Cargo.toml'], 'tools', f'{BUILD}/b')
    return {b: f'{BUILD}/b/debug/{b}' for b in ('yas', 'yis', 'ysim', 'ydb')}


class BuildError(ToolError):
    pass


def build_archs(texts, name, tool=False, doubt=()):
    """Build the harness against a copy of the tree with extra architectures
    (name -> Rust text).  Returns {name: compiler output} of rejected ones;
    those in doubt are suspected first."""
    root = os.path.join(BUILD, name)
    target = f'{BUILD}/{name}-t'
    forget_stale(target, True)
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree(REPO, f'{root}/repo', ignore=shutil.ignore_patterns('target', '.git', 'assets', 'node_modules'))
    os.makedirs(f'{root}/h')
    os.symlink(f'{VERIF}/harness/src', f'{root}/h/src')
    t = open(f'{VERIF}/harness/Cargo.toml').read()
    t = t.replace('name = "vh"', f'name = "{name}"').replace('/repo/sim', f'{root}/repo/sim')
    open(f'{root}/h/Cargo.toml', 'w').write(t)
    if os.path.exists(f'{VERIF}/harness/Cargo.lock'):
        lock = open(f'{VERIF}/harness/Cargo.lock').read()
        open(f'{root}/h/Cargo.lock', 'w').write(lock.replace('name = "vh"', f'name = "{name}"'))
    ex = f'{root}/repo/sim/src/architectures/extra'
    for n, s in texts.items():
        with open(f'{ex}/{n}.rs', 'w') as f:
            f.write(s)
    bad = {}
    while True:
        try:
            if tool:
                cargo(['build', '--offline', '--bin', 'ysim', '--bin', 'ydb', '--manifest-path', f'{root}/repo/Cargo.toml'],
                      'ysim of ' + name, target)
            else:
                cargo(['build', '--offline', '--manifest-path', f'{root}/h/Cargo.toml'], name, target)
            return bad
        except BuildError as e:
            out = str(e)
            # where the errors are; their explanations may name other files
            at = re.findall(r'^error[^\n]*\n *--> (\S+)', out, re.M)
            # a macro that fails leaves errors all over the place after its own
            other = [i for i, f in enumerate(at) if not any(f'architectures/extra/{n}.rs' in f for n in texts)]
            said = '\n'.join(at[:other[0]] if other and other[0] else at) or out
            hit = {n for n in texts if n not in bad and f'architectures/extra/{n}.rs' in said}
            hit = hit or {n for n in texts if n not in bad and f'architectures/extra/{n}.rs' in out}
            hit = hit & set(doubt) or hit
            if not hit:
                raise ToolError(f'cannot build {name}')
            for n in hit:
                bad[n] = out[:6000]
                os.remove(f'{ex}/{n}.rs')


def build_ysim(texts, name):
    """The tools of a copy of the tree with extra architectures."""
    bad = build_archs(texts, name, True)
    return f'{BUILD}/{name}-t/debug/', bad


# ---------------------------------------------------------------- running the code

def run_jobs(jobs, threads=None, limit=10, timeout=600, exe='h/debug/vh'):
    """Run harness jobs; returns the observations in order."""
    if not jobs:
        return []
    env = dict(os.environ, VH_LIMIT=str(limit))
    if threads:
        env['VH_THREADS'] = str(threads)
    inp = '\n'.join(json.dumps(j, separators=(',', ':')) for j in jobs)
    p = subprocess.run([f'{BUILD}/{exe}'], input=inp, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, env=env, timeout=timeout)
    if p.returncode != 0:
        # the process died (abort, stack overflow): find the job that does it
        if len(jobs) == 1:
            return [{'outcome': 'abort', 'msg': f'rc={p.returncode} ' + p.stderr[-200:]}]
        h = len(jobs) // 2
        return run_jobs(jobs[:h], threads, limit, timeout, exe) + run_jobs(jobs[h:], threads, limit, timeout, exe)
    out = [json.loads(l) for l in p.stdout.split('\n') if l]
    if len(out) != len(jobs):
        raise ToolError('harness lost observations')
    return out


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.violated = None
        self.vars = {}
        self.out = ''


def tlc(module, cfg=None, trace=None, workers=2, timeout=800, env=None, extra=(), tag=None, xmx='3g'):
    tag = (tag or '').replace(' ', '-') or f'{module}-{os.getpid()}-{random.Random().randrange(10**9)}'
    md = os.path.join(RUN, 'tlc', tag)
    os.makedirs(md, exist_ok=True)
    e = dict(os.environ)
    e['JAVA_TOOL_OPTIONS'] = f'-Xmx{xmx} -Xss32m -XX:ParallelGCThreads=2 -Djava.io.tmpdir={md}'
    if trace:
        e['TRACE'] = trace
    e.update(env or {})
    cmd = ['tlc', '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE', '-config',
           f'{SPEC}/{cfg or module}.cfg', *extra, f'{SPEC}/{module}.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f'TLC timed out on {module} after {timeout}s')
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = TlcResult()
    r.out = p.stdout
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', p.stdout)
    if m:
        r.states, r.distinct = (int(x.replace(',', '')) for x in m[-1])
    m = re.search(r'Error: Invariant (\w+) is violated', p.stdout)
    m2 = re.search(r'Error: (?:Action property|Temporal properties|The property|Property) ?(\w*)', p.stdout)
    if m or m2:
        r.violated = (m or m2).group(1) or 'property'
        last = p.stdout.split('\nState ')[-1] if '\nState ' in p.stdout else p.stdout
        for k, v in re.findall(r'^/\\ (\w+) = (.*)$', last, re.M):
            r.vars[k] = v
        return r
    if 'No error has been found' not in p.stdout:
        log(p.stdout[-1500:])
        raise ToolError(f'TLC failed on {module}')
    return r


# ---------------------------------------------------------------- a check

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.extra = {}
        self.assumptions = []
        self.rng = random.Random(f'{pid}/{SEED}')
        self.dir = os.path.join(RUN, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)

    # --- model checking of the design
    def model(self, module, cfg=None, workers=NCPU, timeout=800, **kw):
        t = time.time()
        r = tlc(module, cfg, workers=workers, timeout=timeout, **kw)
        self.states += r.distinct
        self.transitions += r.states
        log(f'{self.pid}: {cfg or module}: {r.distinct} states, {time.time() - t:.1f}s')
        self.extra.setdefault('models', []).append(
            {'config': cfg or module, 'states': r.distinct, 'transitions': r.states})
        if r.violated:
            # The specification itself breaks its property: an error of the model
            log(r.out[-1500:])
            raise ToolError(f'design check {cfg or module} violates {r.violated}')
        return r

    # --- conformance of recorded runs
    def conform(self, module, records, cfg=None, procs=None, timeout=800, label=None, env=None):
        """Validate records (dicts) against a trace specification.

        Returns the first violation found (record index, reason) or None."""
        if not records:
            return None
        t = time.time()
        procs = procs or max(1, min(NCPU // 2, (len(records) + 19) // 20))
        idx = [list(range(k, len(records), procs)) for k in range(procs)]
        idx = [i for i in idx if i]

        def one(k):
            path = os.path.join(self.dir, f'{label or module}-{k}.ndjson')
            with open(path, 'w') as f:
                for i in idx[k]:
                    f.write(json.dumps(records[i], separators=(',', ':')) + '\n')
            return tlc(module, cfg, trace=path, workers=max(1, NCPU // len(idx)), timeout=timeout,
                       tag=f'{self.pid}-{label or module}-{k}-{os.getpid()}', env=env)

        with cf.ThreadPoolExecutor(len(idx)) as ex:
            res = list(ex.map(one, range(len(idx))))
        bad = None
        for k, r in enumerate(res):
            self.states += r.distinct
            self.transitions += r.states
            if r.violated:
                tid = int(r.vars.get('tid', '1'))
                i = idx[k][tid - 1]
                why = r.vars.get('why', r.violated).strip('"')
                self.violation(records[i], why, module, cfg, r)
                bad = bad or (i, why)
        self.traces += len(records)
        log(f'{self.pid}: {label or module}: {len(records)} traces, '
            f'{sum(r.states for r in res)} states, {time.time() - t:.1f}s' + (f' BAD {bad}' if bad else ''))
        self.extra.setdefault('conformance', []).append(
            {'spec': module, 'suite': label or module, 'traces': len(records),
             'states': sum(r.distinct for r in res)})
        return bad

    def violation(self, record, why, module, cfg=None, r=None):
        n = len(self.violations) + 1
        path = os.path.join(self.dir, f'violation-{n}.json')
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'why': why, 'spec': module, 'cfg': cfg,
                       'record': record, 'tlc': (r.out[-8000:] if r else '')}, f)
        self.violations.append((why, path))

    def sample(self, s):
        if len(self.samples) < 5:
            try:
                self.samples.append(s() if callable(s) else s)
            except (LookupError, StopIteration):     # nothing of the kind was seen
                pass

    def evidence(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED,
              'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'samples': self.samples or ['none'], **self.extra},
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def finish(self):
        self.evidence()
        for why, path in self.violations:
            print(f'VIOLATION property={self.pid} replay={path}')
            print(f'  reason: {why}')
        log(f'{self.pid}: {"VIOLATION" if self.violations else "ok"} states={self.states} '
            f'traces={self.traces} wall={time.time() - self.t0:.1f}s')
        return 1 if self.violations else 0


def main(fn, pid):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except Exception as e:
        if type(e).__name__ == 'NoServer':
            c.violation({'server': str(e)}, 'the debug server does not start', 'Dap')
        if isinstance(e, (ToolError, subprocess.TimeoutExpired)):
            log(f'{pid}: tool error: {e}')
        else:
            import traceback
            traceback.print_exc()
        # a violation found before the trouble is still one
        rc = c.finish() if c.violations else 2
    sys.stdout.flush()
    sys.exit(rc)
