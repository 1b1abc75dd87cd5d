"""C15: DBSCAN."""
import flow
from C14 import points, Placed


class Db(Placed):
    def __init__(self, X, qs, extra=()):
        self.X, self.qs, self.extra = X, qs, list(extra)

    def line(self):
        return ' '.join([self.fm(self.X + self.extra), str(len(self.X) if self.extra else 0)] +
                        ['DB %d %r' % (p, r / 4 * self.unit) for p, r in self.qs])

    def trace(self, ans):
        ev = []
        for (p, r), e in zip(self.qs, ans['ev']):
            ev.append({'e': 'labels', 'p': p, 'r': r, 'l': e['l'], 'same': e['same']} if e['e'] == 'labels' else {'e': 'crash'})
        if ans['crash'] or len(ans['ev']) != len(self.qs):
            ev.append({'e': 'crash'})
        return {'X': self.X, 'ev': ev}

    def show(self):
        return {'points_doubled': self.X, 'minPoints_and_4eps': self.qs, 'beyond_size': self.extra, 'unit': self.unit, 'origin': self.off}


def random_db(R):
    dim, n = R.randint(1, 3), R.choice([1, 2, 4, 7, 12, 20, 35]) if R.random() < .97 else R.randint(60, 250)
    k = R.randrange(4)
    if k == 0: X, g = points(R, dim, n)
    elif k == 1:                                # groups with bridges between them
        g = 8
        X = []
        for _ in range(n):
            c = R.choice([0, 7, 20])
            X.append([c + R.randint(-3, 3) for _ in range(dim)])
        for _ in range(n // 4): X[R.randrange(n)] = [R.randint(0, 20)] + [R.randint(-2, 2) for _ in range(dim - 1)]
    elif k == 2:                                # chains in mixed order
        g = n
        X = [[2 * i * R.choice([1, 1, 1, 2])] + [0] * (dim - 1) for i in range(n)]
        R.shuffle(X)
    else:
        g = 3
        X = [[R.randint(0, 6) for _ in range(dim)] for _ in range(n)]
    qs = []
    for _ in range(R.randint(1, 4)):
        r = R.choice([0, 2, 4, 4, 6, 8, 12, R.randint(0, 6 * g)])
        if n > 1 and R.random() < .5:
            a, b = R.choice(X), R.choice(X)
            d = 4 * sum((x - y) ** 2 for x, y in zip(a, b))
            s = int(d ** .5 + .5)
            if s * s == d: r = s
        qs.append((R.choice([1, 2, 2, 3, 3, 4, 6]), r))
    extra = [[R.randint(0, 20) for _ in range(dim)] for _ in range(R.randint(1, 5))] if R.random() < .2 else []
    return Db(X, qs, extra).vary(R)


def headed(R):
    """a crowd, everyone near everyone, with a tail that is only found when the crowd is done"""
    dim, n = R.randint(1, 2), R.randint(190, 225)
    X = [[R.randint(-2, 2) for _ in range(dim)] for _ in range(n)]
    tail = [[4 + 8 * i] + [0] * (dim - 1) for i in range(R.randint(3, 9))]
    if R.random() < .5: R.shuffle(X)
    X = X[:5] + tail + X[5:] if R.random() < .5 else X + tail
    return Db(X, [(R.choice([2, 3]), 16 + R.randint(0, 2))]).vary(R)


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_kd')
    r = ck.design('MC_Dbscan', 'MC_Dbscan.cfg', 'all data of at most %d points on a line, every order of visits: final labels are the density clusters' % (5 if big else 4),
                  consts={'N': '5' if big else '4'})
    pr = R.sample(r['printed'], min(len(r['printed']), 20000 if big else 1500))
    items = [Db(x['X'], [(x['p'], x['r'])]) for x in pr]
    items += [random_db(R) for _ in range(12000 if big else 1500)]
    items += [headed(R) for _ in range(40 if big else 4)]
    flow.judge(ck, 'drv_kd', items, Db.line, Db.trace, 'DbscanTrace', show=Db.show, what='DBSCAN')
