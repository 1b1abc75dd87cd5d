"""Shared machinery of the checks: build /repo's current tree, run drivers, run TLC,
write evidence, report violations.  Everything a run produces lives in one scratch
directory that is removed at the end."""
import argparse, atexit, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRIVER = os.path.join(VERIF, 'driver')
EVID = os.path.join(VERIF, 'evidence')
NCPU = os.cpu_count() or 4
DIRS = ['Utils', 'Complex', 'Pipes', 'Preprocessing']
CXX = ['g++', '-std=gnu++14', '-O1', '-w', '-fconcepts', '-D_GLIBCXX_ASSERTIONS']
INC = ['-I%s/%s' % (REPO, d) for d in DIRS]


class ModelError(Exception):
    """The machinery itself failed (not a verdict about the code)."""


class Check:
    def __init__(self, prop):
        ap = argparse.ArgumentParser()
        ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
        ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
        a, _ = ap.parse_known_args(sys.argv[2:])
        self.prop, self.tier, self.seed = prop, a.tier, a.seed
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.states = self.trans = self.traces = 0
        self.samples, self.violations, self.notes, self.assumptions = [], [], [], []
        self.extra = {}
        self.hangs = 0
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        for f in glob.glob(os.path.join(EVID, 'replay', prop + '-*')):
            os.unlink(f)
        try:
            os.unlink(os.path.join(EVID, prop + '.json'))
        except OSError:
            pass

    # ------------------------------------------------------------------ build
    def build(self, *drivers, main=False):
        """Compile every source of the library from REPO plus the named drivers."""
        obj = os.path.join(self.tmp, 'obj')
        os.makedirs(obj, exist_ok=True)
        jobs = []
        srcs = [s for d in DIRS for s in sorted(glob.glob('%s/%s/*.cpp' % (REPO, d)))]
        for s in srcs:
            jobs.append((CXX + INC + ['-c', s, '-o', os.path.join(obj, os.path.basename(s) + '.o')], True))
        for d in drivers:
            jobs.append((CXX + INC + ['-I' + DRIVER, '-c', os.path.join(DRIVER, d + '.cpp'),
                                      '-o', os.path.join(self.tmp, d + '.o')], True))
        if main:
            mi = subprocess.run(['mpicxx', '--showme:incdirs'], capture_output=True, text=True).stdout.split()
            jobs.append((CXX + INC + ['-DOMPI_SKIP_MPICXX'] + ['-I' + x for x in mi] +
                         ['-c', REPO + '/LHFmain/main.cpp', '-o', os.path.join(self.tmp, 'main.o')], True))
        # longest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0][j[0].index('-c') + 1]))
        with ThreadPoolExecutor(NCPU) as ex:
            for r, (cmd, _) in zip(ex.map(lambda j: subprocess.run(j[0], capture_output=True, text=True), jobs), jobs):
                if r.returncode:
                    raise ModelError('compile failed: %s\n%s' % (' '.join(cmd[-3:]), r.stderr[-2000:]))
        lib = os.path.join(self.tmp, 'lib.a')
        objs = sorted(glob.glob(obj + '/*.o'))
        subprocess.run(['ar', 'rcs', lib] + objs, check=True)
        for d in drivers:
            self._link([os.path.join(self.tmp, d + '.o'), lib], d)
        if main:
            ml = subprocess.run(['mpicxx', '--showme:libdirs'], capture_output=True, text=True).stdout.split()
            ln = subprocess.run(['mpicxx', '--showme:libs'], capture_output=True, text=True).stdout.split()
            self._link([os.path.join(self.tmp, 'main.o'), lib] + ['-L' + x for x in ml] +
                       ['-l' + x for x in ln], 'LHF')

    def _link(self, parts, name):
        r = subprocess.run(['g++'] + parts + ['-o', os.path.join(self.tmp, name)], capture_output=True, text=True)
        if r.returncode:
            raise ModelError('link failed: %s\n%s' % (name, r.stderr[-2000:]))

    # ----------------------------------------------------------------- driver
    def drive(self, name, cases, timeout=20, shards=NCPU):
        """cases: list of strings (one case each, single line).  Returns one parsed JSON
        object per case; the driver runs every case in a forked child."""
        if not cases:
            return []
        work = tempfile.mkdtemp(prefix='drv', dir=self.tmp)
        n = max(1, min(shards, len(cases)))
        parts = [list(range(i, len(cases), n)) for i in range(n)]

        def one(k):
            wd = os.path.join(work, str(k))
            os.makedirs(os.path.join(wd, 'output'))
            with open(os.path.join(wd, 'in'), 'w') as f:
                for i in parts[k]:
                    assert '\n' not in cases[i]
                    f.write(cases[i] + '\n')
            env = dict(os.environ, MALLOC_PERTURB_='165', OMP_NUM_THREADS='1')
            with open(os.path.join(wd, 'in')) as fi, open(os.path.join(wd, 'out'), 'w') as fo:
                p = subprocess.run([os.path.join(self.tmp, name), str(timeout)], stdin=fi, stdout=fo,
                                   stderr=subprocess.DEVNULL, cwd=wd, env=env)
            with open(os.path.join(wd, 'out')) as f:
                lines = f.read().split('\n')
            lines = [l for l in lines if l]
            if p.returncode or len(lines) != len(parts[k]):
                raise ModelError('driver %s: rc %s, %d answers for %d cases' % (name, p.returncode, len(lines), len(parts[k])))
            return lines

        res = [None] * len(cases)
        with ThreadPoolExecutor(n) as ex:
            for k, lines in enumerate(ex.map(one, range(n))):
                for i, l in zip(parts[k], lines):
                    res[i] = parse_answer(l)
        shutil.rmtree(work, ignore_errors=True)
        return res

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, files=None, workers=NCPU, simulate=None, depth=100, timeout=800, xmx='6g',
            consts=None, want_violation=False, judging=False):
        """Run TLC in a scratch copy of the specification.  Returns a dict with states,
        distinct, printed lines, ok, violated invariant and the error trace text."""
        wd = tempfile.mkdtemp(prefix='tlc_', dir=self.tmp)
        for f in glob.glob(SPEC + '/*.tla'):
            shutil.copy(f, wd)
        text = open(os.path.join(SPEC, cfg)).read() if os.path.exists(os.path.join(SPEC, cfg)) else cfg
        for k, v in (consts or {}).items():
            text, m = re.subn(r'(?m)^(\s*%s\s*=).*$' % re.escape(k), lambda mm: '%s %s' % (mm.group(1), v), text)
            if not m:
                raise ModelError('constant %s not in %s' % (k, cfg))
        open(os.path.join(wd, 'run.cfg'), 'w').write(text)
        for k, v in (files or {}).items():
            with open(os.path.join(wd, k), 'w') as f:
                f.write(v)
        cmd = ['java', '-Djava.io.tmpdir=' + wd, '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss64m',
               '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
               'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(wd, 'states'),
               '-noGenerateSpecTE', '-config', 'run.cfg', '-deadlock']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(self.seed)]
        cmd.append(module + '.tla')
        with open(os.path.join(wd, 'log'), 'w') as fo:
            try:
                p = subprocess.run(cmd, cwd=wd, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise ModelError('TLC %s timed out after %ds' % (module, timeout))
        out = open(os.path.join(wd, 'log'), errors='replace').read()
        r = {'rc': rc, 'out': out, 'printed': [], 'ok': False, 'violated': None, 'states': 0, 'distinct': 0}
        m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
        if m:
            r['states'], r['distinct'] = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r'The number of states generated: (\d+)', out)
        if m:
            r['states'] = r['distinct'] = int(m[-1])
        for l in out.split('\n'):
            if l.startswith('"@@'):
                r['printed'].append(json.loads(json.loads(l)[2:]))
        m = re.search(r'Invariant (\w+) is violated', out) or re.search(r'(?:Action|Temporal) propert(?:y|ies) (\w*)', out) \
            or re.search(r'(Assumption) .* is false', out)
        if m and rc in (10, 11, 12, 13):
            r['violated'] = m.group(1)
            i = out.find('Error:')
            r['trace'] = out[i:i + 20000]
            r['laststate'] = out[out.rfind('State '):][:20000]
        elif rc == 0:
            r['ok'] = True
        elif judging and 'Error: The behavior up to this point is' in out and not re.search(
                r'argument of Assert|StackOverflow|OutOfMemory|GC overhead', out):
            # a recording the operators of the specification are not even defined on
            r['violated'] = 'undefined'
            r['laststate'] = out[out.rfind('State '):][:20000]
        else:
            raise ModelError('TLC %s/%s failed (rc %d)\n%s' % (module, cfg[:40], rc, out[out.find('Error'):][:3000]))
        if not want_violation:
            self.states += r['distinct']
            self.trans += r['states']
        shutil.rmtree(wd, ignore_errors=True)
        return r

    def design(self, module, cfg, what, **kw):
        """Exhaustive check of the specification itself.  A violation here is a fault of the
        model (it does not depend on the code), hence an error of the check."""
        r = self.tlc(module, cfg, **kw)
        if not r['ok']:
            raise ModelError('design check %s/%s violates %s\n%s' % (module, cfg[:60], r['violated'], r['out'][-3000:]))
        self.notes.append('design %s/%s: %s; %d states, %d distinct' % (module, cfg[:40].split('\n')[0], what, r['states'], r['distinct']))
        return r

    def validate(self, module, cfg, traces, describe=None, chunk=None, **kw):
        """Check recorded executions against the trace specification.  Each trace is a dict
        with a list 'ev'; the trace specification starts one behaviour per trace, consumes one
        event per step and has the invariant Accepted.  Returns list of (index, detail)."""
        if not traces:
            return []
        bad = []
        traces = [clean(t) for t in traces]
        pending = list(range(len(traces)))
        rounds = 0
        while pending:
            data = '\n'.join(json.dumps(traces[i], separators=(',', ':')) for i in pending) + '\n'
            r = self.tlc(module, cfg, files={'traces.ndjson': data}, judging=True, **kw)
            if r['ok']:
                want = sum(len(traces[i]['ev']) + 1 for i in pending)
                if r['distinct'] != want:
                    raise ModelError('%s: %d states for %d trace steps' % (module, r['distinct'], want))
                self.traces += len(pending)
                break
            last = r['laststate']
            c = re.findall(r'/\\ c = (\d+)', last)
            l = re.findall(r'/\\ l = (\d+)', last)
            if not c or r['violated'] not in ('Accepted', 'undefined'):
                raise ModelError('%s: unexpected violation %s\n%s' % (module, r['violated'], r['out'][-3000:]))
            k = pending[int(c[-1]) - 1]
            step = int(l[-1]) - (r['violated'] == 'Accepted') if l else 0
            bad.append((k, step))
            self.traces += 1
            pending.remove(k)
            rounds += 1
            if rounds >= 3:
                break
        return bad

    # ---------------------------------------------------------------- verdict
    def enough(self):
        """Ends the check early, with its violations, once runs that hang have been confirmed
        (waiting for each of them would take hours) or the time of a check is running out."""
        if self.violations and (self.hangs or time.time() - self.t0 > 500):
            self.notes.append('ended early: %d violations, %d of them runs that do not end' % (len(self.violations), self.hangs))
            self.finish()

    def violation(self, what, replay):
        n = len(self.violations) + 1
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (self.prop, n))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'replay': replay}, f, indent=1, default=str)
        self.violations.append(what)
        print('%s: %s' % (self.prop, what))
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)

    def finish(self, level='model_checking'):
        cov = {'states': self.states, 'transitions': self.trans,
               'traces_validated_against_impl': self.traces, 'samples': self.samples[:6]}
        cov.update(self.extra)
        cov['runs'] = self.notes
        ev = {'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': self.seed, 'level': level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for l in known_findings(self.prop):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, l))
        print('%s %s: %d states, %d transitions, %d traces, %.1fs, %d violation(s)' % (
            self.prop, self.tier, self.states, self.trans, self.traces, time.time() - self.t0, len(self.violations)))
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\w+) (.*)', l.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    return res


def projected(mk, *a):
    """the trace of a recording; a recording whose shape makes no sense at all is an event no
    specification accepts"""
    try:
        return mk(*a)
    except ModelError:
        raise
    except Exception as e:
        return {'ev': [{'e': 'crash', 'why': repr(e)}]}


def parse_answer(l):
    try:
        return json.loads(l)
    except ValueError:
        # non-finite numbers and broken output of a crashed child
        try:
            return json.loads(re.sub(r'-?\b(nan|inf)\b', '"\\1"', l))
        except ValueError:
            return {'ev': [], 'crash': 'garbled output', 'raw': l[:300]}


def clean(x):
    """TLC reads whole numbers of 31 bits and quietly wraps or cuts off everything else, so
    every other number becomes a string, which equals no number"""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if x is None:
        return '#null'
    if isinstance(x, float) and abs(x) < 2**31 and x == int(x):
        return int(x)
    if isinstance(x, float) or isinstance(x, int) and not -2**31 < x < 2**31:
        return '#%r' % x
    return x


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]
