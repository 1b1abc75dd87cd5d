"""C13: k-means."""
from math import gcd, isfinite, perm
import flow

LIMIT = 50


class Km:
    def __init__(self, X, k, z, small=False, sc=1, off=0):
        """the data are X + off, times sc, a power of two: clustering commutes with it"""
        self.X, self.k, self.z, self.small, self.sc, self.off = X, k, z, small, sc, off

    def line(self):
        return 'kmeans++ %d %d 1 1 %d %s' % (self.k, self.z, len(self.X), ' '.join('%d %s' % (len(p), ' '.join(repr((x + self.off) * self.sc) for x in p)) for p in self.X))

    def trace(self, ans):
        ev = []
        dim, n = len(self.X[0]), len(self.X)
        lcm = 1
        for i in range(1, n + 1): lcm = lcm * i // gcd(lcm, i)
        top = max(abs(x) for p in self.X for x in p) + 1
        if lcm * top * 2 > 30000 // dim ** .5: lcm = 0    # squares must fit 32 bits

        def place(c, den):
            if den == 0: return None
            s = [round(x * den) for x in c]
            return s if all(abs(x * den - y) < 1e-8 * den for x, y in zip(c, s)) else None

        for e in ans['ev']:
            if e['e'] != 'result':
                ev.append({'e': 'crash'}); continue
            C, ok = [], len(e['l']) == n
            hull = True
            for j, c in enumerate(e['c']):
                c = [x / self.sc - self.off if isinstance(x, (int, float)) else x for x in c]
                if len(c) != dim or not all(isinstance(x, (int, float)) and isfinite(x) for x in c):
                    hull = False
                    C.append({'s': [99999] * dim, 'n': 1}); continue
                hull = hull and all(min(p[d] for p in self.X) - 1e-9 <= c[d] <= max(p[d] for p in self.X) + 1e-9 for d in range(dim))
                m = sum(1 for x in e['l'] if x == j)
                s = place(c, m or lcm)
                if s is not None:
                    q = gcd(m or lcm, *s)
                    C.append({'s': [x // q for x in s], 'n': (m or lcm) // q})
                elif m: C.append({'s': [99999] * dim, 'n': m})      # not a mean of m points
                else: C.append({'s': [0] * dim, 'n': 0}); hull = hull and lcm == 0
            ev.append({'e': 'result', 'C': C, 'L': [x + 1 for x in e['l']], 'hull': hull, 'full': e['full'], 'files': e['files']})
        if ans['crash'] or len(ev) != 1:
            ev.append({'e': 'crash'})
        d = len({tuple(p) for p in self.X})
        cost = perm(d, min(d, self.k)) * n          # seedings to be enumerated
        return {'X': self.X, 'k': self.k, 'z': self.z, 'small': self.small and lcm > 0 and cost <= LIMIT, 'ev': ev}

    def show(self):
        return {'points': self.X, 'unit': self.sc, 'moved by': self.off, 'clusters': self.k, 'iterations': self.z}


def random_km(R):
    sc = R.choice([1, 1, 1, .25, 2.0 ** -10, 2.0 ** -10, 2.0 ** -20, 2.0 ** 12, 2.0 ** 20, 2.0 ** 36])
    off = R.choice([0, 0, 0, 1000, -2 ** 17])
    k = R.randrange(5)
    if k == 0:                                   # small enough for all outcomes
        n, dim, g = R.randint(1, 5), R.randint(1, 2), R.choice([2, 4, 7])
        return Km([[R.randint(0, g) for _ in range(dim)] for _ in range(n)], R.choice([1, 2, 2, 3, 4, 7]), R.choice([1, 2, 3, 250]), True, sc, off)
    if R.random() < .05:                         # clusters of hundreds, in a few places
        dim, u = R.randint(1, 2), R.choice([64, 100])
        X = [p for p in [[R.randint(0, 6) for _ in range(dim)] for _ in range(R.randint(2, 5))] for _ in range(u * R.choice([1, 3, 5, 6]))]
        R.shuffle(X)
        return Km(X, R.choice([1, 2, 2, 3]), R.choice([2, 250, 250]), False, sc, off)
    if R.random() < .06:                         # an even line: many rounds
        n = R.choice([60, 120, 200])
        X = [[R.choice([i, R.randint(0, n)])] for i in range(n)]
        R.shuffle(X)
        return Km(X, R.randint(3, 9), R.choice([3, 250, 250, 250]), False, sc, off)
    n, dim = R.choice([1, 2, 6, 10, 10, 20, 40]), R.randint(1, 3)
    if R.random() < .03:                         # squares still fit 32 bits
        return Km([[R.randint(0, 1) for _ in range(R.choice([4]))] for _ in range(R.choice([64, 90]))], R.choice([1, 2, 3, 5, 8]), R.choice([2, 250]), False, sc, off)
    g = R.choice([1, 3, 6])
    if k == 1: X = [[R.randint(0, g)] + [0] * (dim - 1) for _ in range(n)]
    elif k == 2: X = [[R.choice([0, 6]) + R.randint(0, 1) for _ in range(dim)] for _ in range(n)]
    else: X = [[R.randint(-g, g) for _ in range(dim)] for _ in range(n)]
    return Km(X, R.choice([1, 2, 3, 5, 8, n, n + 3]), R.choice([1, 2, 250, 250, 250]), False, sc, off)


def run(ck):
    R = ck.rng
    big = ck.thorough
    global LIMIT
    LIMIT = 400 if big else 100
    ck.build('drv_pre')
    r = ck.design('MC_KMeans', 'MC_KMeans.cfg', 'all data of at most %d points, all seeds: settles, means exact, nearest labels' % (5 if big else 4),
                  consts={'N': '5' if big else '4'})
    ck.design('MC_KMeans', 'MC_KMeansOut.cfg', 'the recursive set of outcomes contains every run')
    uniq = {str(x): x for x in r['printed']}
    pr = [uniq[k] for k in sorted(uniq)]
    pr = R.sample(pr, min(len(pr), 6000 if big else 700))
    items = [Km(x['X'], x['k'], x['z'] if x['z'] < 12 else 250, True) for x in pr]
    items += [random_km(R) for _ in range(6000 if big else 900)]
    flow.judge(ck, 'drv_pre', items, Km.line, Km.trace, 'KMeansTrace', show=Km.show, keep=True, what='k-means')
