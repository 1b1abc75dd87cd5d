"""C18: micro-clusters and the density stream."""
from math import isfinite
import flow
from C12 import fm


def num(x, s):
    return round(x * s) if isinstance(x, (int, float)) and isfinite(x) and abs(x) < 1e6 else 10 ** 9


# ------------------------------------------------------------------ one micro-cluster
# time is lambda * t in quarters: LAM maps lambda to the time steps of one tick
LAM = {'0': 1, '0.5': 2, '1': 1, '2': 1, '0.25': 4}


class Micro:
    """ops: ('I', k, x) / ('Q', k, x) / ('G',): k ticks since the last gap; a gap is 40 ticks"""
    def __init__(self, lam, born, dim, ops):
        self.lam, self.born, self.dim = lam, born, dim
        self.ops = ops

    def times(self):
        base, top = self.born, 0
        for o in self.ops:
            if o[0] == 'G':
                base += (top + 80) * LAM[self.lam]; top = 0
                yield None, None, None
            else:
                top = max(top, o[1])
                mul = 2 if self.lam == '2' else 1
                yield o, (base + o[1] * LAM[self.lam] if self.lam != '0' else base + 7 * o[1]), o[1] * mul if self.lam != '0' else 0

    def line(self):
        return 'MICRO %d %d %s ' % (self.born, self.dim, self.lam) + ' '.join(
            '%s %d %d %s' % (o[0], t, len(o[2]), ' '.join(map(str, o[2]))) for o, t, k in self.times() if o)

    def trace(self, ans):
        ev, it = [], iter(ans['ev'])
        for o, t, k in self.times():
            if o is None:
                ev.append({'e': 'gap'}); continue
            e = next(it, {'e': 'crash'})
            if e['e'] == 'ins' and o[0] == 'I': ev.append({'e': 'ins', 'x': o[2], 'k': k})
            elif e['e'] == 'see' and o[0] == 'Q':
                sq = lambda r: num(r * r if isinstance(r, (int, float)) else r, 256)
                ev.append({'e': 'see', 'x': o[2], 'k': k, 'wt': num(e['w'], 1024), 'c': [num(x, 1024) for x in e['c']],
                           'r2': sq(e['r']), 'm2': sq(e['m']), 'born': e['born'], 'same': e['same']})
            else:
                ev.append({'e': 'crash'}); break
        if ans['crash']: ev.append({'e': 'crash'})
        return {'dim': self.dim, 'born': self.born, 'ev': ev}

    def show(self):
        return {'lambda': self.lam, 'created': self.born, 'ops': self.ops}


def random_micro(R):
    lam = R.choice(['0', '0.5', '1', '1', '2', '0.25'])
    dim, g = R.randint(1, 3), R.choice([1, 3, 8])
    ops, k = [], 0
    pt = lambda: [R.randint(-g, g) for _ in range(dim)]
    for _ in range(R.choice([2, 5, 10, 20])):
        q = R.random()
        if q < .08 and lam != '0': ops.append(('G',)); k = 0; continue
        if k < (6 if lam != '2' else 3) and R.random() < .3: k += R.choice([1, 1, 2])
        k = min(k, 6 if lam != '2' else 3)
        if q < .6: ops.append(('I', k, pt() if R.random() < .8 else [g] * dim))
        else: ops.append(('Q', k, pt()))
    ops.append(('Q', k, pt()))
    return Micro(lam, R.choice([0, 0, 3, 50]), dim, ops)


# ------------------------------------------------------------------ the density stream
class Den:
    def __init__(self, P, M, eps, lam, stream, stride=3):
        self.P, self.M, self.eps, self.lam, self.stream, self.stride = P, M, eps, lam, stream, stride

    def line(self):
        init = [p for p, m in zip(self.P, self.M) for _ in range(m)]
        return 'DEN %d %d %d %s %s' % (self.eps, self.lam, self.stride, fm1(init), fm1(self.stream))

    def trace(self, ans):
        ev = []
        for e in ans['ev']:
            if e['e'] not in ('init', 'feed'): ev.append({'e': 'crash', 'files': False}); break
            ev.append({'e': e['e'], 'k': e['k'], 'C': [[num(x, 1000) for x in c] for c in e['c']], 'files': e['files']})
        if ans['crash'] or len(ev) != 1 + len(self.stream) // self.stride + (len(self.stream) % self.stride > 0): ev.append({'e': 'crash', 'files': False})
        return {'P': self.P, 'M': self.M, 'eps': self.eps, 'B': 2 ** self.lam, 'stream': self.stream, 'ev': ev}

    def show(self):
        return {'first_points': list(zip(self.P, self.M)), 'epsilon': self.eps, 'lambda': self.lam, 'stream': self.stream}


def fm1(X):
    return '%d %s' % (len(X), ' '.join('%d %s' % (len(p), ' '.join(map(str, p))) for p in X))


def d2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def start(R, groups, eps, dim, total=1000):
    """total first points: the groups (lists of (position, multiplicity)) and far scattered noise"""
    P, M = [], []
    for g in groups:
        for p, m in g: P.append(p); M.append(m)
    left, at = total - sum(M), 100
    while left > 0:
        m = min(left, 19)
        P.append([at] + [0] * (dim - 1)); M.append(m)
        left -= m; at += eps + R.randint(1, 3)
    return P, M


def ambiguous(P, M, eps):
    """a position within reach of two density clusters"""
    n = len(P)
    nb = [[j for j in range(n) if d2(P[i], P[j]) <= eps * eps] for i in range(n)]
    core = [sum(M[j] for j in nb[i]) >= 20 for i in range(n)]
    comp = list(range(n))
    def find(x):
        while comp[x] != x: x = comp[x]
        return x
    for i in range(n):
        for j in nb[i]:
            if core[i] and core[j]: comp[find(i)] = find(j)
    return any(not core[i] and len({find(j) for j in nb[i] if core[j]}) > 1 for i in range(n))


def random_den(R, small):
    while True:
        dim, eps, lam = R.randint(1, 2), R.choice([1, 1, 2, 3]), R.choice([1, 1, 1, 2])
        groups = []
        for _ in range(R.choice([0, 1, 1, 2, 3])):
            c = [R.randint(-8, 8) for _ in range(dim)]
            w = R.choice([20, 20, 22, 25, 40, 90 if lam == 1 else 24])
            g, left = [], w
            while left > 0:
                m = min(left, R.choice([1, 5, 19, 30])); left -= m
                g.append(([x + R.randint(-1, 1) * R.randint(0, eps) for x in c], m))
            groups.append(g)
        short = R.random() < .1
        P, M = start(R, groups, eps, dim, R.choice([30, 200, 999]) if short else 1000)
        if ambiguous(P, M, eps) or (short and not P): continue
        n = 0 if short else R.choice([5, 25, 45, 70 if small else 110]) if lam == 1 else R.choice([5, 30, 45])
        stream, at = [], [0] * dim
        hot = [[R.randint(-8, 8) for _ in range(dim)] for _ in range(R.randint(1, 4))]
        hot += [p for g in groups for p, _ in g][:2]
        q = R.random()
        while len(stream) < n:
            k = R.random()
            if k < .6:
                at = [x + R.randint(-1, 1) * (R.random() < q) for x in R.choice(hot)]
                stream += [at] * R.choice([1, 1, 2, 3])
            elif k < .8: stream.append([R.randint(-8, 8) for _ in range(dim)])
            else: stream += [R.choice(hot)] * R.choice([3, 8])
        return Den(P, M, eps, lam, stream[:n], R.choice([1, 3, 5, 7]))


def crowd_den(R):
    """many scattered points, each its own outlier for a while, some of them met again"""
    while True:
        eps, dim = R.choice([1, 2]), R.choice([1, 2, 2])
        if dim == 1: eps = 1
        P, M = start(R, [[([-5] + [0] * (dim - 1), R.choice([20, 24]))]] if R.random() < .5 else [], eps, dim)
        if not ambiguous(P, M, eps): break
    m, gap = R.randint(18, 38), 2 * eps + 1
    j = lambda: R.randint(0, 1)                # (distances times 250 must fit 32 bits when squared)
    place = [[60 - (gap + 1) * i + j()] for i in range(m)] if dim == 1 else \
            [[(gap + 2) * (i % 7) - 20 + j(), (gap + 2) * (i // 7) - 15 + j()] for i in range(m)]
    R.shuffle(place)
    s = list(place)
    if R.random() < .5:                        # as many as a unit of time allows, the last of them kept
        u = R.randint(15, 17)
        s = place[:u] + [place[R.randint(u - 2, u - 1)]] * 3
        s += [R.choice(place)] * (20 - len(s)) + place[u:u + 9]
    late = place[-8:]
    for _ in range(R.choice([3, 6, 10])):
        p = R.choice(late if R.random() < .7 else place)
        s += [p] * R.choice([1, 2, 2, 3])
    return Den(P, M, eps, 1, s[:64], R.choice([5, 7]))


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_den')
    r = ck.design('MC_Micro', 'MC_Micro.cfg', 'incremental sums = sums over the history; spread, point-likeness',
                  consts={'MaxN': '5' if big else '3', 'MaxTick': '3'})
    items = []
    for x in r['printed']:
        if not big and R.random() < .5 and len(r['printed']) > 600: continue
        ops = []
        for v, k in x['h']: ops += [('I', k, [v]), ('Q', k, [1])]
        ops.append(('Q', x['q'], [2]))
        items.append(Micro('1', 0, 1, ops))
    items += [random_micro(R) for _ in range(40000 if big else 3000)]
    flow.judge(ck, 'drv_den', items, Micro.line, Micro.trace, 'MicroTrace', show=Micro.show, what='micro-cluster')
    ck.design('MC_DenStream', 'MC_DenStream.cfg', 'all short streams: nothing counted twice, radii within the limit, pruning and promotion rules',
              consts={'MaxLen': '8' if big else '6'})
    r = ck.design('MC_DenStream', 'MC_DenStreamRuns.cfg', 'streams of runs of equal points at the real constants',
                  consts={'MaxLen': '4' if big else '3'})
    uniq = {str(x): x for x in r['printed']}
    pr = [uniq[k] for k in sorted(uniq)]
    items = []
    for x in R.sample(pr, min(len(pr), 2500 if big else 100)):
        P, M = start(R, [[([p], m)] for p, m in x['start']], 1, 1)
        items.append(Den(P, M, 1, 1, [[v] for v, m in x['run'] for _ in range(m)]))
    items += [random_den(R, not big) for _ in range(3000 if big else 150)]
    items += [crowd_den(R) for _ in range(400 if big else 30)]
    flow.judge(ck, 'drv_den', items, Den.line, Den.trace, 'DenStreamTrace', 'DenStreamTrace.cfg', show=Den.show, what='density stream', timeout=60)
