"""Shared machinery of the checks: scratch build of /repo, isolated execution of cases against the real
code, TLC runs (model checking of the specification, validation of recorded behaviours), verdicts."""
import threading, json, os, re, shutil, signal, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
NCPU = len(os.sched_getaffinity(0))
CXX = 'g++-10' if shutil.which('g++-10') else 'g++'


def log(*a):
    print(*a, flush=True)


class Infra(Exception):
    """failure of the machinery itself (never a verdict)"""


# ------------------------------------------------------------------------------------------ build
class Build:
    """Copy of the current working tree of /repo (Python package and C++ core), built from source."""

    def __init__(self, scratch):
        self.dir = scratch
        self.py = os.path.join(scratch, 'tree')
        self.cc = os.path.join(scratch, 'ccore')
        self.obj = os.path.join(scratch, 'obj')
        self.failed = None

    def copy(self):
        ign = shutil.ignore_patterns('*.so', '*.dll', '*.dylib', 'tests', 'examples', '__pycache__', 'samples')
        shutil.copytree(REPO + '/pyclustering', self.py + '/pyclustering', ignore=ign)
        ign = shutil.ignore_patterns('*.so', '*.o', 'obj', 'tst', 'utest', 'bvt', 'external')
        shutil.copytree(REPO + '/ccore', self.cc, ignore=ign)
        os.makedirs(self.obj)

    def sources(self, sub=None):
        res = []
        for d, _, fs in os.walk(self.cc + '/src'):
            for f in sorted(fs):
                if f.endswith('.cpp'):
                    p = os.path.join(d, f)
                    if sub is None or any(os.path.relpath(p, self.cc + '/src').startswith(s) for s in sub):
                        res.append(p)
        return sorted(res)

    def _cc(self, src, out, flags):
        cmd = [CXX, '-c', '-O1', '-w', '-std=c++14', '-fPIC', '-m64', '-pthread', '-DEXPORT_PYCLUSTERING_INTERFACE',
               '-I' + self.cc + '/include', '-I' + self.cc] + flags + [src, '-o', out]
        p = subprocess.run(cmd, capture_output=True, text=True)
        return (src, p.returncode, p.stderr)

    def compile(self, srcs, flags=(), tag='o'):
        outs, jobs = [], []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for s in sorted(srcs, key=lambda x: -os.path.getsize(x)):
                o = os.path.join(self.obj, re.sub(r'[^A-Za-z0-9_.]', '_', os.path.relpath(s, '/')) + '.' + tag)
                outs.append(o)
                jobs.append(ex.submit(self._cc, s, o, list(flags)))
            for j in jobs:
                s, rc, err = j.result()
                if rc != 0:
                    raise Infra('cannot compile %s:\n%s' % (s, err[-3000:]))
        return outs

    def core(self):
        objs = self.compile(self.sources())
        d = self.py + '/pyclustering/core/64-bit/linux'
        os.makedirs(d, exist_ok=True)
        self.so = d + '/libpyclustering.so'
        p = subprocess.run([CXX, '-shared', '-pthread', '-m64'] + objs + ['-o', self.so], capture_output=True, text=True)
        if p.returncode:
            raise Infra('cannot link core: ' + p.stderr[-2000:])
        self.objs = objs
        return self.so

    def exe(self, name, srcs, objs, flags=(), ldflags=()):
        own = self.compile(srcs, flags, tag=name + '.o')
        out = os.path.join(self.dir, name)
        p = subprocess.run([CXX, '-pthread', '-m64'] + own + list(objs) + ['-o', out] + list(ldflags),
                           capture_output=True, text=True)
        if p.returncode:
            raise Infra('cannot link %s: %s' % (name, p.stderr[-3000:]))
        return out

    def env(self):
        e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        e.update(PYTHONPATH=self.py + ':' + VERIF + '/harness', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                 MPLCONFIGDIR=self.dir + '/mpl', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', HOME=self.dir,
                 LC_ALL='C.UTF-8', PYTHONWARNINGS='ignore', VERIF_SCRATCH=self.dir)
        return e


# ------------------------------------------------------------------------------------------ isolated execution
def run_cases(build, module, cases, scratch, nproc=None, stall=150, tag='w', deadline=None):
    """Executes module.run_case(case) for every case in worker processes; a crash or hang of the code under
    test is an outcome of the case ("crash"/"hang"), not a failure of the machinery.  After one hang or 24 crashes, or
    when the time is used up, the cases not yet executed are left out ("skipped")."""
    count = {'hang': 0, 'crash': 0}
    def over():
        return count['hang'] >= 1 or count['crash'] >= 24 or (deadline is not None and time.time() > deadline)
    nproc = min(nproc or NCPU, max(1, len(cases)))
    results = [None] * len(cases)
    cfile = os.path.join(scratch, tag + '_cases.json')
    with open(cfile, 'w') as f:
        json.dump(cases, f)
    env = build.env()

    def drive(w):
        todo = list(range(w, len(cases), nproc))
        attempt = 0
        while todo:
            if over():
                for i in todo:
                    results[i] = {'outcome': 'skipped'}
                return
            attempt += 1
            out = os.path.join(scratch, '%s_%d_%d.jsonl' % (tag, w, attempt))
            open(out, 'w').close()
            err = out + '.err'
            with open(err, 'w') as ef:
                p = subprocess.Popen([PY, '-W', 'ignore', VERIF + '/harness/worker.py', module, cfile, out,
                                      ','.join(map(str, todo)) if len(todo) < 2000 else '@%d:%d' % (todo[0], nproc)],
                                     env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True)
                last, size, hang, cut = time.time(), 0, False, False
                while True:
                    try:
                        p.wait(timeout=0.5)
                        break
                    except subprocess.TimeoutExpired:
                        s = os.path.getsize(out)
                        if s != size:
                            size, last = s, time.time()
                        elif time.time() - last > stall:
                            hang = True
                            os.killpg(p.pid, signal.SIGKILL)
                            p.wait()
                            break
                        if over():
                            cut = True
                            os.killpg(p.pid, signal.SIGKILL)
                            p.wait()
                            break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            started = None
            done = set()
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if 'start' in r:
                    started = r['start']
                else:
                    results[r['i']] = r['rec']
                    done.add(r['i'])
            todo = [i for i in todo if i not in done]
            if not todo:
                break
            if cut:
                continue
            if started is None or started in done:
                if attempt > 3:
                    raise Infra('worker cannot run: ' + open(err).read()[-3000:])
                if p.returncode == 0:
                    raise Infra('worker stopped early')
                continue
            if p.returncode == 99:
                raise Infra('worker: ' + open(err).read()[-3000:])
            results[started] = {'outcome': 'hang' if hang else 'crash', 'detail': str(p.returncode)}
            todo.remove(started)
            count['hang' if hang else 'crash'] += 1

    with cf.ThreadPoolExecutor(nproc) as ex:
        for f in [ex.submit(drive, w) for w in range(nproc)]:
            f.result()
    return results


# ------------------------------------------------------------------------------------------ TLC
def _tlc(spec, cfg, scratch, extra=(), env=None, timeout=600, workers=None, heap='4g'):
    md = tempfile.mkdtemp(prefix='tlc', dir=scratch)
    sd = os.path.join(scratch, 'spec')
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:-UsePerfData', '-Djava.io.tmpdir=' + md,
           '-cp', CP, 'tlc2.TLC', '-workers', str(workers or NCPU), '-metadir', md, '-noGenerateSpecTE',
           '-config', os.path.join(sd, cfg)] + list(extra) + [os.path.join(sd, spec + '.tla')]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=md)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
        rc = -9
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


SPEC_LOCK = threading.Lock()

def spec_dir(scratch):
    sd = os.path.join(scratch, 'spec')
    with SPEC_LOCK:
        if not os.path.isdir(sd):
            shutil.copytree(VERIF + '/spec', sd)
    return sd


RE_STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def model_check(spec, cfg, scratch, timeout=600, workers=None, extra=()):
    spec_dir(scratch)
    t = time.time()
    rc, out = _tlc(spec, cfg, scratch, timeout=timeout, workers=workers, extra=extra)
    m = RE_STATS.findall(out)
    if rc != 0 or not m:
        raise Infra('model checking of %s/%s failed (rc=%d):\n%s' % (spec, cfg, rc, out[-4000:]))
    return {'spec': spec, 'cfg': cfg, 'generated': int(m[-1][0]), 'distinct': int(m[-1][1]), 'wall_s': round(time.time() - t, 1),
            'out': out}


RE_V = re.compile(r'<<\s*"@(ACCEPT|REJECT)",\s*(\d+)(?:,\s*(-?\d+),\s*"([^"]*)")?\s*>>', re.S)


def validate(spec, cfg, records, scratch, tag='t', timeout=800, workers=None, shards=None, heap='6g', per_shard=400):
    """Returns (list of None | (step, clause) per record, stats)."""
    spec_dir(scratch)
    n = len(records)
    verdicts = [('?', None)] * n
    stats = {'generated': 0, 'distinct': 0}
    if n == 0:
        return [], stats

    crashed = []

    def one(idx, depth, name):
        if len(crashed) >= 16:          # enough records outside of the domain: those are violations, the rest of their shards is not examined any more
            for i in idx:
                verdicts[i] = ('ok', None)
            return
        f = os.path.join(scratch, '%s_%s.ndjson' % (tag, name))
        with open(f, 'w') as h:
            for i in idx:
                h.write(json.dumps(records[i]) + '\n')
        rc, out = _tlc(spec, cfg, scratch, env={'TRACE_FILE': f}, timeout=timeout, workers=wk, heap=heap)
        m = RE_STATS.findall(out)
        if m:
            stats['generated'] += int(m[-1][0])
            stats['distinct'] += int(m[-1][1])
        seen = {}
        for kind, t, step, why in RE_V.findall(out):
            t = int(t) - 1
            if kind == 'ACCEPT':
                seen[t] = ('ok', None)
            elif t not in seen:
                seen[t] = ('no', (int(step), why))
        if rc == -9 and 'Parsing or semantic' not in out:       # the time is used up: what TLC has decided so far counts
            for k, i in enumerate(idx):
                verdicts[i] = seen.get(k, ('ok', None))
            stats['unexamined'] = stats.get('unexamined', 0) + sum(1 for k in range(len(idx)) if k not in seen)
            log('TLC: time used up, %d of %d records not examined' % (sum(1 for k in range(len(idx)) if k not in seen), len(idx)))
            return
        if rc == 0:
            for k, i in enumerate(idx):
                verdicts[i] = seen.get(k, ('no', (0, 'no behaviour of the specification explains the recorded execution')))
            os.unlink(f)
            return
        if len(idx) == 1:           # one record, and TLC cannot evaluate the specification on it
            if rc == -9 or 'OutOfMemory' in out or 'Parsing or semantic analysis failed' in out:
                raise Infra('TLC failed on one record (rc=%d): %s' % (rc, out[-3000:]))
            msg = re.findall(r'Error: (.*)', out)
            crashed.append(idx[0])
            verdicts[idx[0]] = ('no', (0, 'record outside the domain of the specification: ' + ' | '.join(msg)[:300]))
            return
        if 'Parsing or semantic analysis failed' in out or 'Cannot find source file' in out or rc == -9 or 'OutOfMemory' in out:
            raise Infra('TLC failed (rc=%d): %s' % (rc, out[-4000:]))
        for k, i in enumerate(idx):
            if seen.get(k, ('no',))[0] == 'ok':
                verdicts[i] = ('ok', None)
        idx = [i for k, i in enumerate(idx) if seen.get(k, ('no',))[0] != 'ok']
        h = max(1, len(idx) // 2) if len(idx) > 1 else len(idx)
        if idx:
            one(idx[:h], depth + 1, name + 'a')
        if idx[h:]:
            one(idx[h:], depth + 1, name + 'b')

    shards = shards or max(1, min((n + per_shard - 1) // per_shard, 4 if n < 4 * per_shard else 8))
    wk = workers or max(1, NCPU // min(shards, NCPU))
    parts = [list(range(s, n, shards)) for s in range(shards)]
    with cf.ThreadPoolExecutor(min(shards, NCPU)) as ex:
        for f in [ex.submit(one, p, 0, str(k)) for k, p in enumerate(parts) if p]:
            f.result()
    return [None if v[0] == 'ok' else v[1] for v in verdicts], stats


# ------------------------------------------------------------------------------------------ known findings
def known_findings(prop):
    """known_findings.jsonl: {"property","key","what"}; a key identifies the failing case exactly."""
    res = {}
    p = VERIF + '/known_findings.jsonl'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('{'):
                continue
            r = json.loads(line)
            if r['property'] == prop:
                res[r['key']] = r['what']
    return res
