"""C22: the reduced mode of the program."""
from math import gcd, sqrt
import prog
from homology import *
from C07 import EPS, DIM, OUT, SHORT, spell

SEP = '_______BETTIS_______\n'
HEADS = ['dimension,birth,death', 'PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount']
CEN, LAB = 'output/k-means++_centroid_output.csv', 'output/k-means++_label_output.csv'


class Run:
    def __init__(self, R, args, X, clustered=True, reduced=True):
        self.args, self.X, self.clustered, self.reduced = args, X, clustered, reduced
        self.files = {'in.csv': prog.csv(R, X)}
        self.want = [b + s for b in OUT for s in ('.csv', '_stats.csv')] + [CEN, LAB]
        self.skip = None

    def show(self):
        return {'arguments': ' '.join(self.args), 'file': self.files['in.csv']}

    def trace(self, a):
        base = {'args': self.args, 'dim': DIM}
        crash = dict(base, X=[], Q=[], L=[], lim=EPS, ev=[{'e': 'crash'}])
        if not isinstance(a['exit'], int) or a['exit'] != 0 or (SEP in a['stdout']) != self.reduced:
            return crash
        H = [[int(2 * x) for x in r] for r in self.X]
        n, dim = len(H), len(H[0])
        Q, L, u = [], [], 1
        if self.clustered:
            try:
                L = [int(x) for x in a['files'][LAB].split()]
                cf = [[float(x) for x in l.split(',') if x.strip()] for l in a['files'][CEN].split('\n') if l.strip()]
            except (KeyError, ValueError):
                return crash
            if len(L) != n or any(x < 0 or x >= len(cf) for x in L) or any(len(q) != dim for q in cf):
                return crash
            for j in range(len(cf)):
                m = L.count(j)
                if m: u = u * m // gcd(u, m)

            def at(u):
                q = [[round(2 * u * x) for x in c] for c in cf]
                ok = all(abs(2 * u * x - y) <= 2e-6 * u for c, p in zip(cf, q) for x, y in zip(c, p))
                return q if ok else None
            Q = at(u)
            if Q is None:                # a centroid without points is the mean of points it once had
                own = [c for j, c in enumerate(cf) if L.count(j)]
                full = u
                for k in range(1, n + 1): full = full * k // gcd(full, k)
                Q2 = at(full)
                if len(own) < len(cf) and Q2 is not None: u, Q = full, Q2
                elif len(own) < len(cf): self.skip = 'a centroid without points at no known place'; return None
                else: Q = [[round(2 * u * x) for x in c] for c in cf]           # not a mean: left to the specification
            lo, hi = min(map(min, H + cf2(cf))), max(map(max, H + cf2(cf)))
            if 4 * dim * ((hi - lo + 1) * u) ** 2 > 2 * 10 ** 9:
                self.skip = 'denominators too large'; return None
        P = [[x * u for x in r] for r in H]
        lim = {k: v * u * u for k, v in EPS.items()}
        if max(lim.values()) > 2 * 10 ** 9:
            lim = {k: min(v, 2 * 10 ** 9) for k, v in lim.items()}
        sq = lambda p, q: sum((x - y) ** 2 for x, y in zip(p, q))
        cand = {0} | set(lim.values())
        for A in (P, Q):
            for i in range(len(A)):
                for j in range(i): cand.add(sq(A[i], A[j]))
        if self.clustered and self.reduced:
            R4 = 4 * max(sq(P[i], Q[L[i]]) for i in range(n))
            if R4 and any(sq(p, q) == R4 for p in P for q in Q):
                self.skip = 'a point at exactly twice the radius'; return None
            if any(sq(Q[i], Q[j]) in lim.values() and any(x % (2 * u) for x in Q[i] + Q[j]) for i in range(len(Q)) for j in range(i)):
                self.skip = 'centroids at exactly the limit'; return None
        val = sorted((sqrt(w) / (2 * u), w) for w in cand)
        if any(b[0] - a_[0] < max(5e-6, 3e-5 * a_[0]) for a_, b in zip(val, val[1:])):
            self.skip = 'distances too close to tell apart'; return None

        def near(x, tol):
            v, w = min(val, key=lambda t: abs(t[0] - x))
            return w if abs(v - x) <= tol else -999
        def bars(text):
            out = []
            for l in text.split('\n'):
                if not l.strip() or l[0].isalpha(): continue
                try:
                    f = l.split(',')
                    if any(x.strip() for x in f[3:]): raise ValueError
                    out.append([int(f[0]), near(float(f[1]), 2e-6), near(float(f[2]), 2e-6)])
                except (ValueError, IndexError):
                    out.append([-1, -999, -999])
            return out
        m = []
        for l in a['stdout'].split(SEP, 1)[1].split('\n') if self.reduced else []:
            if not l.strip(): continue
            try:
                f = l.split(',\t')
                b, d = float(f[1]), float(f[2])
                m.append([int(f[0]), near(b, 1e-5 * b + 1e-9), near(d, 1e-5 * d + 1e-9), [int(x) for x in f[3].split(',') if x.strip()]])
            except (ValueError, IndexError):
                m.append([-1, -999, -999, []])
        out = []
        for b in OUT:
            d, s = a['files'].get(b + '.csv'), a['files'].get(b + '_stats.csv')
            if d is None and s is None:
                continue
            d, s = (d or '').split('\n', 1), (s or '').split('\n', 1)
            out.append({'base': b, 'both': len(d) == 2 and len(s) == 2, 'heads': [d[0], s[0]] == HEADS, 'rows': prog.rows(s[-1]), 'b': bars(d[-1])})
        return dict(base, X=P, Q=Q, L=L, lim=lim, ev=[{'e': 'run', 'exit': a['exit'], 'out': out, 'm': m}])


def cf2(cf):
    return [[2 * x for x in c] for c in cf]


def random_run(R):
    k = R.randrange(6)
    if k == 0: p = clusters(R, R.randint(2, 3), R.randint(1, 4), R.choice([1, 2]), R.choice([6, 12]), R.choice([1, 2]))
    elif k == 1: p = [list(q) for q in circle(R, R.randint(4, 9), R.choice([3, 5]), 0)]
    elif k == 2:                                    # some points far from everything
        p = cloud(R, R.randint(1, 5), 2, 3) + [[R.choice([-1, 1]) * R.randint(20, 40), R.randint(-3, 3)] for _ in range(R.randint(1, 2))]
    elif k == 3: p = [q for q in cloud(R, R.randint(1, 4), R.choice([1, 2]), 4) for _ in range(R.choice([1, 2, 3]))][:10]
    else: p = any_cloud(R, R.choice([4, 7, 10]))
    many = R.random() < .04
    if many:                                        # more than sixteen parts
        p = [[6 * i + e] for i in range(R.randint(18, 21)) for e in ([0, 1] if R.random() < .5 else [0])]
    p = [list(q) for q in p]
    R.shuffle(p)
    opts = [('inputFile', 'in.csv'), ('mode', 'reduced'), ('clusters', R.choice(['1', '2', '2', '3', '3', '4', '6', str(len(p)), str(len(p) + 2)]) if not many else str(R.randint(17, 22)))]
    if R.random() < .95: opts.append(('outputFile', R.choice(OUT[:4]) if R.random() < .93 else 'console'))
    if R.random() < .95: opts.append(('epsilon', R.choice(list(EPS))))
    if R.random() < .9: opts.append(('dimensions', R.choice(list(DIM))))
    if R.random() < .3: opts.append(('iterations', R.choice(['1', '2', '10', '300'])))
    if R.random() < .2: opts.append(('complexType', R.choice(TYPES)))
    if R.random() < .1: opts.append(('debug', R.choice(['0', '1'])))
    if R.random() < .1: opts.append(('twist', 'true'))
    if R.random() < .1: opts.append(('upscale', 'false'))
    pre = True
    if R.random() < .25:                            # everything chosen by the user
        kind = R.choice(TYPES)
        opts = [o for o in opts if o[0] != 'complexType'] + [('complexType', kind)]
        last = ['fast', 'fastPersistence'] + ([] if kind == IND else ['persistence'])
        c = ['distMatrix', 'neighGraph', 'rips', R.choice(last)]
        if R.random() < .3: c.insert(R.randint(0, 4), R.choice(['upscale', 'nosuch']))
        opts.append(('pipeline', '.'.join(c)))
        pre = R.choice(['kmeans', 'kmeans++', 'kmeansplusplus', 'none', 'nosuch', ''])
        opts.append(('preprocessor', pre))
        pre = pre.startswith('kmeans')
    elif R.random() < .3:
        pre = R.choice(['kmeans', 'kmeans++', 'kmeansplusplus', 'none', 'nosuch'])
        opts.append(('preprocessor', pre))
        pre = pre.startswith('kmeans')
    R.shuffle(opts)
    return Run(R, [x for o, v in opts for x in (spell(R, o), v)], p, pre)


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build(main=True)
    r = ck.design('MC_Program', 'MC_Reduced.cfg', 'the reduced mode for every outcome of the clustering: passes, parts, files, merged table')
    items = []
    for x in r['printed']:
        if not x['X']: continue
        for _ in range(12 if big else 2):
            items.append(Run(R, list(x['args']) + ['-m', 'reduced', '-i', 'in.csv'], [[v / 2 for v in q] for q in x['X']]))
    items += [random_run(R) for _ in range(8000 if big else 1000)]
    prog.judge(ck, items, 'ReducedTrace', 'a run in reduced mode', keep=True)
    why = [x.skip for x in items if x.skip]
    ck.notes.append('runs not judged because rounding decides: %s' % {k: why.count(k) for k in set(why)})
    ck.extra['runs_not_judged'] = len(why)
