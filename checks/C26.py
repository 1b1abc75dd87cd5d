"""C26: the program with a preprocessor, in its window modes and in its upscaling mode."""
import re
import prog, vlib
from homology import *
from C07 import EPS, DIM, OUT, spell
from C16 import random_stream
import C18, C22

OPTS = ['mpi', 'mode', 'dimensions', 'iterations', 'pipeline', 'inputFile', 'outputFile', 'epsilon', 'lambda', 'debug', 'complexType',
        'clusters', 'preprocessor', 'upscale', 'twist', 'collapse']
HEADS = C22.HEADS
NUM = {str(i): i for i in range(60)}


class Run:
    def __init__(self, R, args, X, P=((0,),), M=(1,), u=1):
        self.args, self.X, self.P, self.M, self.u = args, X, P, M, u
        self.files = {'in.csv': prog.csv(R, X)}
        self.want = [b + s for b in OUT for s in ('.csv', '_stats.csv')] + [C22.LAB, 'output/DenStream_centroid_output.csv', 'output/DenStream_label_output.csv'] + \
                    ['output/SlidingWindow_%d_output.csv' % i for i in range(9)] + ['output/NaiveWindow_0_output.csv']

    def show(self):
        return {'arguments': ' '.join(self.args), 'file': self.files['in.csv']}

    def trace(self, a):
        base = {'args': self.args, 'eps': EPS, 'dim': DIM, 'num': NUM, 'debug': {'0': False, '1': True}, 'X': [[int(2 * x) for x in r] for r in self.X],
                'P': [list(p) for p in self.P], 'M': list(self.M), 'u': self.u}
        try:
            return dict(base, ev=[self.event(a)])
        except (ValueError, IndexError, KeyError):
            return dict(base, ev=[{'e': 'crash'}])

    def event(self, a):
        if not isinstance(a['exit'], int): return {'e': 'crash'}
        f, lines = a['files'], a['stdout'].split('\n')
        conf = {}
        for l in lines:
            k = l.split('\t')
            if len(k) == 2 and k[0] in OPTS and k[0] not in conf: conf[k[0]] = k[1]
        m = re.search(r'^Partitions: (-?\d+)\nCounts: ([^\n]*)\n', a['stdout'], re.M)
        out, cs = [], Case('P', [], 0, 1, TREE)
        for b in OUT:
            d, s = f.get(b + '.csv'), f.get(b + '_stats.csv')
            if d is None and s is None: continue
            d, s = (d or '').split('\n', 1), (s or '').split('\n', 1)
            tail = d[-1]
            if self.u > 1 or len(self.P) > 1: bars = self.scaled(tail)
            else: bars = cs.parse_bars(tail)
            out.append({'base': b, 'both': len(d) == 2 and len(s) == 2, 'heads': [d[0], s[0]] == HEADS, 'rows': prog.rows(s[-1]), 'b': bars})
        labels = (f.get(C22.LAB) or '') + (f.get('output/DenStream_label_output.csv') or '')
        points = []
        pts = lambda t: [[round(2 * float(x)) for x in l.split(',') if x] for l in t.split('\n') if l]
        names = ['output/SlidingWindow_%d_output.csv' % i for i in range(9)]
        for i, n in enumerate(names):
            if n in f: points.append(pts(f[n]) if i == len(points) else [])
        if 'output/NaiveWindow_0_output.csv' in f: points.append(pts(f['output/NaiveWindow_0_output.csv']))
        c = f.get('output/DenStream_centroid_output.csv') or ''
        centres = []
        for l in c.split('\n'):
            if l:
                q = [float(x) * self.u for x in l.split(',') if x.strip()]
                centres.append([round(x) if abs(x - round(x)) <= 1e-6 * self.u + 1e-9 else 99999 for x in q])
        return {'e': 'run', 'exit': a['exit'], 'conf': conf, 'out': out, 'L': [int(x) for x in labels.split()],
                'parts': int(m.group(1)) if m else -1, 'counts': [int(x) for x in m.group(2).split()] if m else [],
                'points': points, 'centres': centres}

    def scaled(self, text):
        """intervals in units of 1/(2u), squared"""
        out = []
        for l in text.split('\n'):
            if not l.strip(): continue
            try:
                d, b, e = l.split(',')
                w = [(2 * self.u * float(x)) ** 2 for x in (b, e)]
                tol = [2e-6 * 2 * self.u * 2 * (2 * self.u * float(x)) + 1e-3 for x in (b, e)]
                out.append([int(d)] + [round(x) if abs(x - round(x)) <= max(.3, min(t, .4)) else -999 for x, t in zip(w, tol)])
            except ValueError:
                out.append([-1, -999, -999])
        return out


def common(R, opts, dims=DIM):
    if R.random() < .95: opts.append(('outputFile', R.choice(OUT[:4]) if R.random() < .9 else 'console'))
    if R.random() < .1: opts.append(('debug', R.choice(['0', '1'])))
    if R.random() < .15: opts.append(('twist', R.choice(['true', 'false'])))
    if R.random() < .1: opts.append(('iterations', R.choice(['1', '10'])))
    if R.random() < .1: opts.append(('lambda', '1'))
    if R.random() < .1: opts.append(('mpi', '0')) if not any(o == 'mpi' for o, _ in opts) else None
    R.shuffle(opts)
    return [x for o, v in opts for x in (spell(R, o), v)]


def upscale(R):
    """labels by cluster, in every way this mode can be asked for"""
    p = [list(q) for q in any_cloud(R, R.choice([3, 9, 25, 60]))] if R.random() < .8 else [[R.randint(0, 2)] for _ in range(R.randint(1, 12))]
    if R.random() < .03: p = []
    k = R.choice(['1', '2', '3', '5', '9', None])
    o = [('inputFile', 'in.csv')] + ([('clusters', k)] if k else [])
    q = R.randrange(4)
    if q == 0: o.append(('mode', 'upscaleBound'))
    elif q == 1: o += [('mpi', '1')] + ([('mode', R.choice(['standard', 'reduced', 'other', 'upscaleBound', 'fast']))] if R.random() < .5 else [])
    elif q == 2: o += [('upscale', 'true'), ('preprocessor', R.choice(['none', 'nosuch', '', 'kmeans++', 'kmeans']))]
    else: o += [('upscale', 'true'), ('pipeline', R.choice(['rips', 'distMatrix.neighGraph', 'naivewindow'])), ('mode', R.choice(['sw', 'reduced', 'standard']))]
    if q < 2 and R.random() < .4: o.append(('preprocessor', R.choice(['kmeans', 'kmeansplusplus', 'none', 'nosuch'])))
    if R.random() < .3: o.append(('epsilon', R.choice(list(EPS))))
    if R.random() < .3: o.append(('complexType', R.choice(TYPES)))
    return Run(R, common(R, o), p)


def window(R, sliding, n=None):
    dim = R.choice([1, 2, 2, 3])
    n = n if n is not None else R.choice([0, 1, 49, 50, 51, 99, 100, 150, R.randint(0, 260)] + ([199, 200, 201, 250, 299, 300, 301, 399, 401, R.randint(200, 420)] if sliding else []))
    s = random_stream(R, n, dim)
    if R.random() < .6: s = [[(7 * i) % 41] + [i // 41] * (dim - 1) for i in range(n)]
    if sliding and dim == 1: s = [[(3 * i) % 400] for i in range(n)]
    elif sliding and n >= 200: s[:200] = [[(7 * i) % 41, i // 41] + [0] * (dim - 2) for i in range(200)]
    o = [('inputFile', 'in.csv' if R.random() < .97 else 'nosuch.csv')]
    if o[0][1] == 'nosuch.csv': s = []
    names = ['sw', 'slidingwindow'] if sliding else ['naive', 'naivewindow']
    q = R.random()
    if q < .8: o.append(('mode', R.choice(names)))
    else: o += [('pipeline', 'slidingwindow' if sliding else 'naivewindow')] + ([('mode', R.choice(['standard', 'sw', 'fast', 'other']))] if R.random() < .6 else [])
    if q < .8 and R.random() < .3: o.append(('preprocessor', R.choice(['kmeans', 'none'])))
    if q < .8 and R.random() < .3: o.append(('complexType', R.choice(TYPES)))
    if q < .8 and R.random() < .2: o.append(('upscale', 'true'))
    o += [('epsilon', R.choice(['0.5', '1.5', '2', '2.5'] if dim > 1 else ['0.5', '1.5', '3'])), ('dimensions', R.choice(['1', '1', '2']))]
    return Run(R, [x for x in common(R, o)], s)


def density(R):
    """few positions, many points: all of them are first points of the density stream"""
    while True:
        dim, eps = R.randint(1, 2), R.choice([2, 3, 4, 5])
        groups, u = [], 1
        for j in range(R.choice([0, 1, 2, 3, 4])):
            c = [R.choice([-1, 1]) * R.randint(0, 12) for _ in range(dim)]
            left = w = R.choice([20, 20, 24, 30])
            g = []
            while left:
                m = min(left, R.choice([1, 5, 10, 15])); left -= m
                g.append((tuple(x + R.choice([0, 0, -1, 1]) for x in c), m))
            groups.append(g)
        P, M = [], []
        for p, m in [x for g in groups for x in g] + [((50 + 9 * j,) + (0,) * (dim - 1), R.choice([1, 3, 19])) for j in range(R.randint(0, 3))]:
            if p in P: M[P.index(p)] += m
            else: P.append(p); M.append(m)
        if not P or C18.ambiguous(P, M, eps): continue
        # the weights of the groups that are found, for the unit of the centres
        n = len(P)
        nb = [{j for j in range(n) if C18.d2(P[i], P[j]) <= eps * eps} for i in range(n)]
        core = {i for i in range(n) if sum(M[j] for j in nb[i]) >= 20}
        seen = set()
        for i in core:
            if i in seen: continue
            comp, front = {i}, {i}
            while front:
                new = set().union(*(nb[j] for j in front)) - comp; comp |= new; front = new & core
            seen |= comp
            w = sum(M[j] for j in comp)
            from math import gcd
            u = u * w // gcd(u, w)
        if u > 240: continue
        X = [list(p) for p, m in zip(P, M) for _ in range(m)]
        R.shuffle(X)
        o = [('inputFile', 'in.csv'), ('preprocessor', R.choice(['denStream', 'denstream', 'DenStream'])), ('epsilon', str(eps)), ('lambda', R.choice(['1', '0.5'])),
             ('dimensions', '1')]
        if R.random() < .5: o.append(('mode', R.choice(['standard', 'fast'])))
        args = [x for a, b in R.sample(o, len(o)) for x in (spell(R, a), b)] + ['-o', R.choice(OUT[:4])]
        return Run(R, args, X, P, M, u)


def clustered(R):
    """the standard mode on the centroids of a clustering"""
    x = C22.random_run(R)
    o = [('inputFile', 'in.csv'), ('preprocessor', R.choice(['kmeans', 'kmeans++', 'kmeansplusplus'])),
         ('clusters', R.choice(['1', '2', '3', '4', '6', str(len(x.X)), str(len(x.X) + 2)])),
         ('epsilon', R.choice(list(EPS))), ('dimensions', R.choice(list(DIM)))]
    if R.random() < .5: o.append(('mode', R.choice(['standard', 'fast'])))
    kind = R.choice(TYPES)
    if R.random() < .6: o.append(('complexType', kind))
    if R.random() < .3:
        o = [a for a in o if a[0] != 'complexType'] + [('complexType', kind)]
        o.append(('pipeline', 'distMatrix.neighGraph.rips.' + R.choice(['fast', 'fastPersistence'] + ([] if kind == IND else ['persistence']))))
    return C22.Run(R, common(R, o), x.X, True, False)


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build(main=True)
    ck.design('MC_Modes', 'MC_Modes.cfg', 'every configuration: the way taken; every length of stream and window: what is reported; every labelling: sizes of the parts',
              consts={'MaxLen': '14' if big else '6', 'MaxW': '6' if big else '3'})
    f = 8 if big else 1
    items = [upscale(R) for _ in range(250 * f)]
    items += [window(R, False) for _ in range(60 * f)]
    items += [window(R, True) for _ in range(24 * f)] + [window(R, True, n) for n in (200, 300, 301)]
    items += [density(R) for _ in range(120 * f)]
    cfg = open(vlib.SPEC + '/ModesTrace.cfg').read()
    prog.judge(ck, items, 'ModesTrace', 'a run of the program', cfg=cfg, keep=True)
    items = [clustered(R) for _ in range(400 * f)]
    prog.judge(ck, items, 'ReducedTrace', 'a run with a clustering', keep=True)
    why = [x.skip for x in items if x.skip]
    ck.extra['runs_not_judged'] = len(why)
    ck.notes.append('runs not judged because rounding decides: %s' % {k: why.count(k) for k in set(why)})
