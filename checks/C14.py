"""C14: k-d tree queries."""
import flow
from C12 import half2, BAD

idx = lambda i: i if isinstance(i, int) and 0 <= i < 2 ** 30 else BAD


class Placed:
    """data given to the code in another unit, around another origin (both exact in floating point)"""
    unit, off = 1, 0

    def vary(self, R):
        if R.random() < .35:
            self.unit = R.choice([2.0 ** -30, 2.0 ** -10, .25, 64, 2.0 ** 40])
            self.off = R.choice([0, 0, 10 ** 6, -2 ** 24, 2 ** 30])
        return self

    def fv(self, v):
        return '%d %s' % (len(v), ' '.join(repr((x / 2 + self.off) * self.unit) for x in v))

    def fm(self, X):
        return '%d %s' % (len(X), ' '.join(self.fv(v) for v in X))

    def back(self, p):
        return [half2(x / self.unit - self.off) if isinstance(x, (int, float)) else BAD for x in p]


class Tree(Placed):
    """doubled coordinates; queries ('range', q, r) with r four times the radius, ('near', q)"""

    def __init__(self, X, qs, extra=()):
        self.X, self.qs, self.extra = X, qs, list(extra)

    def line(self):
        o = [self.fm(self.X + self.extra), str(len(self.X) if self.extra else 0)]
        for q in self.qs:
            o.append('RANGE %s %r' % (self.fv(q[1]), q[2] / 4 * self.unit) if q[0] == 'range' else 'NEAR ' + self.fv(q[1]))
        return ' '.join(o)

    def trace(self, ans):
        h = self.back
        ev = []
        for q, e in zip(self.qs, ans['ev']):
            if e['e'] == 'range':
                ev.append({'e': 'range', 'q': q[1], 'r': q[2], 'idx': [idx(i) for i in e['idx']], 'pts': [h(p) for p in e['pts']],
                           'both': [[h(p), idx(i)] for p, i in e['both']]})
            elif e['e'] == 'near':
                ev.append({'e': 'near', 'q': q[1], 'idx': idx(e['idx']), 'pt': h(e['pt']), 'pair': [h(e['pair'][0]), idx(e['pair'][1])]})
            else: ev.append({'e': 'crash'})
        if ans['crash'] or len(ans['ev']) != len(self.qs):
            ev.append({'e': 'crash'})
        return {'X': self.X, 'ev': ev}

    def show(self):
        return {'points_doubled': self.X, 'queries': self.qs, 'beyond_size': self.extra, 'unit': self.unit, 'origin': self.off}


def points(R, dim, n):
    g = R.choice([1, 2, 4, 10, 60])
    k = R.randrange(5)
    if k == 0:                                  # few distinct coordinates
        X = [[R.randint(0, g) for _ in range(dim)] for _ in range(n)]
    elif k == 1:                                # one coordinate constant or collinear
        X = [[R.randint(-g, g)] * dim if R.random() < .8 else [R.randint(-g, g) for _ in range(dim)] for _ in range(n)]
    elif k == 2:                                # sorted or reversed
        X = sorted([[R.randint(-g, g) for _ in range(dim)] for _ in range(n)], reverse=R.random() < .5)
    elif k == 3:
        c = R.randrange(dim)
        X = [[R.randint(-g, g) if j != c else g for j in range(dim)] for _ in range(n)]
    else:
        X = [[R.randint(-g, g) for _ in range(dim)] for _ in range(n)]
    for i in range(n):
        if R.random() < .1: X[i] = X[R.randrange(n)][:]
    return X, g


def random_tree(R):
    dim = R.randint(1, 4) if R.random() < .9 else R.randint(5, 12)
    n = R.choice([1, 1, 2, 3, 4, 5, 8, 15, 40]) if R.random() < .96 else R.randint(60, 400)
    X, g = points(R, dim, n)
    qs = []
    for _ in range(R.randint(1, 10)):
        q = R.choice(X)[:] if R.random() < .5 else [R.randint(-g - 2, g + 2) for _ in range(dim)]
        if R.random() < .3: q[R.randrange(dim)] += R.choice([-1, 1])
        if R.random() < .6:
            r = R.choice([0, 1, R.randint(0, 4 * g), R.randint(0, 10 * g)])
            if R.random() < .6:                 # exactly at a point
                ok = []
                for x in X:
                    d = 4 * sum((a - b) ** 2 for a, b in zip(x, q))
                    s = int(d ** .5 + .5)
                    if s * s == d: ok.append(s)
                if ok: r = R.choice(ok)
            qs.append(('range', q, r))
        else: qs.append(('near', q))
    extra = [[R.randint(-g, g) for _ in range(dim)] for _ in range(R.randint(1, 4))] if R.random() < .15 else []
    return Tree(X, qs, extra).vary(R)


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_kd')
    r = ck.design('MC_KdTree', 'MC_KdTree.cfg', 'all trees of at most %d points in a 3x3 grid, all queries: pruned search = exhaustive search' % (4 if big else 3),
                  consts={'N': '4' if big else '3', 'G': '3'})
    pr = R.sample(r['printed'], min(len(r['printed']), 20000 if big else 1500))
    items = []
    for x in pr:
        X = x['X'][:]
        R.shuffle(X)
        items.append(Tree(X, [('range', x['q'], x['r']), ('near', x['q'])]))
    items += [Tree([], [('range', [0] * d, r)]) for d in (1, 2, 3) for r in (0, 4, 40)]
    items += [random_tree(R) for _ in range(12000 if big else 1500)]
    flow.judge(ck, 'drv_kd', items, Tree.line, Tree.trace, 'KdTreeTrace', show=Tree.show, what='k-d tree query')
