"""C16: the sliding window."""
from math import isfinite
import flow
from C18 import fm1


def milli(x):
    if not isinstance(x, (int, float)) or not isfinite(x): return -10 ** 6
    return -1 if x == -1 else round(x * 1000)


def whole(x, k=1.0):
    """k * x * x if that is an integer, else -1"""
    if not isinstance(x, (int, float)) or not isfinite(x) or abs(x) > 1e4: return -1
    y = k * x * x
    return round(y) if abs(y - round(y)) < 1e-6 else -1


class Win:
    def __init__(self, w, eps2, dim, stream, stride=1, op='SLIDE'):
        self.w, self.eps2, self.dim, self.stream, self.stride, self.op = w, eps2, dim, stream, stride, op

    def line(self):
        return '%s %d %r %d %d %s' % (self.op, self.w, self.eps2 / 2, self.dim, self.stride, fm1(self.stream))

    def trace(self, ans):
        ev = []
        ks = [k for k in range(len(self.stream) + 1) if k % self.stride == 0 or k == len(self.stream)]
        for k, e in zip(ks, ans['ev']):
            if e['e'] != 'state': ev.append({'e': 'crash'}); break
            x = {'e': 'state', 'k': e['k'], 'data': e['data'], 's': [[s, whole(d, 4)] for s, d in e['s']],
                 'count': e['count'], 'vertices': e['vertices']}
            if any(not isinstance(v, int) for p in e['data'] for v in p): x['data'] = [[99999]]
            x['dist'] = [[whole(d) for d in r] for r in e['dist']]
            if self.op == 'SLIDE':
                x.update(keys=e['keys'], labels=e['labels'], nni=[i + 1 for i in e['nni']], nnd=[milli(d) for d in e['nnd']],
                         avg=[[p, milli(d)] for p, d in e['avg']], num=e['num'], max=e['max'])
            ev.append(x)
        if ans['crash'] or len(ev) != len(ks): ev.append({'e': 'crash'})
        return {'stream': self.stream, 'eps4': self.eps2 ** 2, 'dim': self.dim, 'ev': ev}

    def show(self):
        return {'window': self.w, 'epsilon': self.eps2 / 2, 'dimensions': self.dim, 'stream': self.stream}


def random_stream(R, n, dim):
    """visits to a few places, with pauses long enough to make partitions outdated"""
    k = R.randrange(5)
    lim = 40 if dim == 1 else 20
    pt = lambda g: [R.randint(0, g) for _ in range(dim)]
    if k == 0: return [pt(R.choice([2, 4, lim])) for _ in range(n)]
    if k == 1:                                        # a drifting line
        s, x = [], 0
        for _ in range(n):
            x = min(max(x + R.choice([-1, 0, 1, 1, 2, 5, -6]), 0), lim)
            s.append([x] + [0] * (dim - 1))
        return s
    places = [pt(lim) for _ in range(R.randint(2, 5))]
    spread = R.choice([0, 1, 1, 2, 3])
    s, here = [], places[0]
    stay = R.choice([.5, .8, .95])
    while len(s) < n:
        if R.random() > stay: here = R.choice(places)
        s.append([min(max(x + R.randint(-spread, spread), 0), lim) for x in here])
    return s


def random_win(R, w, big):
    dim = R.choice([1, 1, 1, 2, 3])
    n = w + R.choice([0, 1, 5, 20, 40, 60 if w < 12 else 40])
    if R.random() < .1: n = R.randint(0, w)
    if R.random() < .08: n = R.choice([99, 100, 101, 130])
    # places first apart, then mixtures, so that the window leaves its first partition
    s = random_stream(R, n, dim)
    if R.random() < .5 and n > w:                     # distinct evenly spaced start, a far point next
        for i in range(min(w, n)): s[i] = [(i * R.choice([1, 1, 1, 2])) % 20] + [0] * (dim - 1)
        s[w] = [20 if dim > 1 else 40] * dim
    return Win(w, R.choice([1, 2, 3, 6]), R.randint(1, 2), s, R.choice([1, 1, 2, 5]) if n < 70 else 7)


def ageing(R, w):
    """a small partition whose last point is about 25 insertions old while older points of a younger partition are there"""
    C, B, N = R.sample([[24, 0], [0, 24], [24, 24]], 3)
    near = lambda p, d: [p[0] + R.randint(0, d), p[1] + R.randint(0, d)]
    s = [[i % 10, i // 10] for i in range(w)]
    if R.random() < .5: R.shuffle(s)
    if R.random() < .4:                               # the outdated partition is also the one to grow
        s += [near(C, 3) for _ in range(R.choice([1, 2, 2, 2, 3]))] + [near(B, 3) for _ in range(R.randint(24, 29))]
        s += [near(C, 3) for _ in range(R.randint(1, 3))] + [near(B, 3) for _ in range(R.randint(0, 3))]
        return Win(w, 1, 1, s, 1 if R.random() < .6 else 4)
    s += [near(C, 3) for _ in range(R.randint(2, 6))] + [near([0, 0], 9) for _ in range(R.randint(1, 3))]
    s += [near(B, 3) for _ in range(R.randint(22, 27))] + [near(R.choice([N, N, C, [0, 0], B]), 3) for _ in range(R.randint(1, 4))]
    return Win(w, 1, 1, s, 1 if R.random() < .3 else 4)


def hopping(R, w):
    """every few points somewhere else: more and more partitions"""
    s = [[i % 5, i // 5 % 5, i // 25] for i in range(w)]
    grid = [[x, y, z] for x in (0, 7, 14, 20) for y in (0, 7, 14, 20) for z in (7, 14, 20)]
    R.shuffle(grid)
    m = R.choice([1, 1, 2])
    for g in grid[:R.choice([14, 24, 30])]:
        s += [g] * (m if R.random() < .8 else 3 - m)
        if R.random() < .3: s.append(R.choice(s[-6:]))
    return Win(w, 1, 1, s, R.choice([2, 5]))


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_win')
    ck.design('MC_Window', 'MC_Window.cfg', 'all short streams over five positions: size, keys, admission, eviction, labels',
              consts={'MaxLen': '9' if big else '6'}, xmx='12g')
    r = ck.design('MC_Window', 'MC_WindowOut.cfg', 'all streams of 6 points over five positions, emitted')
    seen = sorted({tuple(x['s']) for x in r['printed']})
    items = [Win(3, 2, 1, [[v] for v in s]) for s in R.sample(seen, min(len(seen), 15000 if big else 700))]
    flow.judge(ck, 'drv_win', items, Win.line, Win.trace, 'WindowTrace', 'WindowTrace.cfg', show=Win.show, what='sliding window of 3')
    for w, m in [(2, 60), (3, 150), (4, 150), (8, 150), (12, 60), (20, 20), (32, 40)] + ([(5, 100), (30, 20), (36, 40), (50, 10), (200, 2)] if big else []):
        items = [ageing(R, w) if 30 < w < 40 else hopping(R, w) if w > 11 and R.random() < .4 else random_win(R, w, big) for _ in range(m * (8 if big and w < 20 else 1))]
        cfg = open(ck_spec('WindowTrace.cfg')).read().replace('W = 3', 'W = %d' % w)
        flow.judge(ck, 'drv_win', items, Win.line, Win.trace, 'WindowTrace', cfg, show=Win.show, what='sliding window of %d' % w, timeout=60)


def ck_spec(n):
    import vlib
    return vlib.SPEC + '/' + n
