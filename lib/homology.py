"""Point clouds and weight matrices, the projection of recorded runs onto the integers of
LHFTrace.tla, and the traces themselves."""
import itertools, math

TREE, LIST, IND = 'simplexTree', 'simplexArrayList', 'indSimplexTree'
TYPES = [TREE, LIST, IND]


class Case:
    """pts: point cloud with integer or half-integer coordinates (kind 'P'), or an upper
    triangular matrix of integer distances (kind 'M').  eps is a multiple of 1/2."""

    def __init__(self, kind, data, eps, dims, typ, stages='distMatrix.neighGraph.rips.fastPersistence', tag=''):
        self.kind, self.data, self.eps, self.dims, self.typ, self.stages, self.tag = kind, data, eps, dims, typ, stages, tag
        self.n = len(data)
        self.unit, self.off, self.exact = 1, 0, False        # the code sees (data + off) * unit and eps * unit: exact in floating point

    def vary(self, R, p=.25, text=True):
        """sometimes another unit of length and another origin, or weights that are nearly equal"""
        if self.kind == 'M' and R.random() < .08:
            b = R.choice([10 ** 6, 2 ** 24, 10 ** 8, 4 * 10 ** 8])
            self.data = [[x + b if j > i else 0 for j, x in enumerate(r)] for i, r in enumerate(self.data)]
            self.eps += b
        elif R.random() < p:
            far = self.kind == 'P' and max([abs(x) for q in self.data for x in q] + [0]) > 125      # six decimals have to tell the weights apart
            self.unit = R.choice([4, 1024]) if far else R.choice([2.0 ** -8 if text else 2.0 ** -20, 2.0 ** -8, .25, 4, 1024, 2.0 ** 16])
            if self.kind == 'P': self.off = R.choice([0, 0, 1000, -2 ** 20, 2 ** 27])
        return self

    def fine(self, R):
        """a unit so small or large that only the intervals in memory, with all their digits, tell"""
        self.unit, self.off, self.exact = R.choice([2.0 ** -30, 2.0 ** -30, 2.0 ** -60, 2.0 ** 40]), 0, True
        return self

    # integers of the specification: clouds 4*d^2 (coordinates may be halves), matrices 2*d
    def weights(self):
        n = self.n
        if self.kind == 'M':
            return [[int(round(2 * self.data[i][j])) if i < j else 0 for j in range(n)] for i in range(n)]
        w = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                x = 4 * sum((a - b) ** 2 for a, b in zip(self.data[i], self.data[j]))
                assert x == int(x)
                w[i][j] = int(x)
        return w

    def lim(self):
        return int(round((2 * self.eps) ** 2)) if self.kind == 'P' else int(round(2 * self.eps))

    def closed(self):
        return self.typ == LIST

    def project(self, x, tol=2e-6):
        """value of the implementation -> integer of the specification (or -999)"""
        if not isinstance(x, (int, float)) or x != x or abs(x) > 1e300:
            return -999
        x /= self.unit
        if self.exact: tol = 1e-6
        elif self.unit < 1: tol /= self.unit
        if abs(x) > (2e4 if self.kind == 'P' else 1e9):      # integers of TLC have 31 bits
            return -999
        if self.kind == 'P':
            r = round(4 * x * x)
            return r if x >= 0 and abs(math.sqrt(r) / 2 - x) <= tol else -999
        r = round(2 * x)
        return r if abs(r / 2 - x) <= tol else -999

    def rows(self):
        """what the code is given"""
        if self.unit == 1 and not self.off:
            return self.data
        return [[(x + self.off) * self.unit for x in r] for r in self.data]

    def rowsline(self):
        return ' '.join('%d %s' % (len(r), ' '.join(repr(x) for x in r)) for r in self.rows())

    def limit(self):
        return float(self.eps * self.unit)

    def line(self, extra=''):
        rows = self.rowsline()
        return '%s %r %d %s %s %d %s %s' % (self.typ, self.limit(), self.dims, self.stages, self.kind, self.n, rows, extra)

    def show(self):
        return {'complex': self.typ, 'eps': self.eps, 'dims': self.dims, 'stages': self.stages,
                'points' if self.kind == 'P' else 'matrix': self.data, 'tag': self.tag,
                **({} if self.unit == 1 and not self.off else {'moved by': self.off, 'times': self.unit})}

    def parse_bars(self, text):
        out = []
        for l in text.split('\n'):
            l = l.strip()
            if not l or l[0].isalpha():
                continue
            f = l.split(',')
            try:
                d, b, e = int(f[0]), float(f[1]), float(f[2])
                if len([x for x in f[3:] if x.strip()]):
                    raise ValueError
            except (ValueError, IndexError):
                out.append([-1, -999, -999])
                continue
            out.append([d, self.project(b), self.project(e)])
        return out

    def trace(self, ans, want=('list', 'bars', 'table'), dims=None):
        """the recorded run as a trace of LHFTrace.tla"""
        ev = []
        full = 'persistence' in self.stages.split('.')
        top = self.dims
        seen_rips = False
        for e in ans['ev']:
            if e['e'] == 'list':
                ev.append({'e': 'insert', 'm': self.n, 'top': top})
                seen_rips = True
                if 'list' in want:
                    ev.append({'e': 'list', 's': [[s, self.project(w)] for s, w in e['s']], 'pure': e['pure'],
                               'sorted': e['sorted'], 'count': e['count'], 'vertices': e['vertices']})
            elif self.exact and (e['e'] == 'bars' or e['e'] == 'table' and 'bars' in want):
                if e['e'] == 'bars': continue           # text of six decimals
                ev += [] if seen_rips else [{'e': 'insert', 'm': self.n, 'top': top}]
                ev.append({'e': 'bars', 'b': [[int(t[0]), self.project(t[1]), self.project(t[2])] for t, p in e['t']],
                           'dims': dims if dims is not None else list(range(self.dims)), 'full': full})
            elif e['e'] == 'bars':
                if not seen_rips:
                    ev.append({'e': 'insert', 'm': self.n, 'top': top})
                if 'bars' in want:
                    ev.append({'e': 'bars', 'b': self.parse_bars(e['text']),
                               'dims': dims if dims is not None else list(range(self.dims)), 'full': full})
            elif e['e'] == 'table' and 'table' in want and not full:
                ev.append({'e': 'table', 't': [[int(t[0]), self.project(t[1]), self.project(t[2]), p] for t, p in e['t']]})
        if ans['crash'] or not ans['ev'] or ans['ev'][-1]['e'] != 'end':
            ev.append({'e': 'crash'})
        return {'n': self.n, 'D': self.weights(), 'lim': self.lim(), 'closed': self.closed(), 'dims': self.dims, 'ev': ev}


# ------------------------------------------------------------------ point clouds
def cloud(R, n, amb, span):
    return [[R.randint(-span, span) for _ in range(amb)] for _ in range(n)]


def circle(R, n, rad, jitter=0):
    return [[int(round(rad * math.cos(2 * math.pi * i / n))) + R.randint(-jitter, jitter),
             int(round(rad * math.sin(2 * math.pi * i / n))) + R.randint(-jitter, jitter)] for i in range(n)]


def cross(R, d, rad, jitter=0):
    """cross-polytope: 2d points, sphere S^(d-1)"""
    pts = []
    for i in range(d):
        for s in (1, -1):
            p = [R.randint(-jitter, jitter) for _ in range(d)]
            p[i] += s * rad
            pts.append(p)
    return pts


def cube(k, d=3):
    return [[k * x for x in p] for p in itertools.product((0, 1), repeat=d)]


def grid(a, b, k=1):
    return [[k * i, k * j] for i in range(a) for j in range(b)]


def clusters(R, k, per, amb, gap, span):
    pts = []
    for c in range(k):
        o = [gap * c * (1 if a == 0 else 0) + R.randint(-1, 1) for a in range(amb)]
        pts += [[o[a] + R.randint(-span, span) for a in range(amb)] for _ in range(per)]
    return pts


def line_pts(R, n, span):
    return [[R.randint(0, span), 0] for _ in range(n)]


def wedge(R, k, n, rad):
    pts = []
    for c in range(k):
        pts += [[x + c * (2 * rad + 1), y] for x, y in circle(R, n, rad)]
    return pts


def torus_grid():
    """nine points of the 3x3 torus (flat, in R^4 up to rounding)"""
    tri = [(3, 0), (-2, 2), (-2, -2)]
    return [list(a) + list(b) for a in tri for b in tri]


def half(R, pts):
    return [[x + R.choice((0, 0.5)) for x in p] for p in pts]


def diam(pts):
    return max([math.dist(a, b) for a, b in itertools.combinations(pts, 2)] + [1])


def pick_eps(R, pts):
    """a limit that is never an attained distance (odd multiple of 1/2 over quarter squares)"""
    d = diam(pts)
    k = R.choice([0.15, 0.3, 0.45, 0.6, 0.8, 1.0, 1.3])
    return max(0, int(k * d)) + 0.5


def safe_eps(case_pts, eps):
    """eps such that no squared distance equals eps^2 (closed and open storages agree)"""
    w = {4 * sum((a - b) ** 2 for a, b in zip(p, q)) for p, q in itertools.combinations(case_pts, 2)}
    while (2 * eps) ** 2 in w:
        eps += 0.5
    return eps


def matrix(R, n, hi, zero=0.0):
    return [[0 if j <= i else (0 if R.random() < zero else R.randint(1, hi)) for j in range(n)] for i in range(n)]


def shuffled(R, pts):
    p = list(pts)
    R.shuffle(p)
    return p


def nearly(R, n):
    """distances that differ in the sixth or later figure"""
    r = R.choice([300, 2000, 6000])
    c = circle(R, max(3, min(n, 9)), r, 1) if R.random() < .7 else cross(R, R.choice([2, 3]), r, R.choice([1, 2]))
    return [p[:] for p in c]


def any_cloud(R, nmax):
    k = R.randrange(13)
    n = R.randint(1, nmax)
    if k == 0: p = cloud(R, n, 2, R.choice([2, 4, 9, 30]))
    elif k == 1: p = cloud(R, n, 3, R.choice([1, 3, 8]))
    elif k == 2: p = circle(R, max(4, min(n, 12)), R.choice([5, 9, 14]), R.choice([0, 1]))
    elif k == 3: p = cross(R, R.choice([2, 3]), R.choice([4, 7, 10]), R.choice([0, 1, 2]))
    elif k == 4: p = cube(R.choice([2, 5, 7]), R.choice([2, 3])) + cloud(R, 1, 2, 3)[:0]
    elif k == 5: p = grid(R.randint(1, 4), R.randint(1, 3), R.choice([1, 3]))
    elif k == 6: p = clusters(R, R.randint(2, 3), R.randint(1, 3), R.choice([1, 2, 3]), 15, 3)
    elif k == 7: p = line_pts(R, n, R.choice([3, 12, 40]))
    elif k == 8: p = wedge(R, 2, R.choice([4, 5, 6]), R.choice([4, 6]))
    elif k == 9: p = half(R, cloud(R, n, 2, 6))
    elif k == 10:
        p = cloud(R, max(1, n // 2), 2, 5)
        p = p + [list(R.choice(p)) for _ in range(n - len(p))]
    elif k == 11: p = nearly(R, n)
    else: p = cloud(R, n, R.choice([1, 4, 5]), 4)
    p = p[:max(nmax, 1)]
    return shuffled(R, p)


def sparse(R, n, stages, types=TYPES):
    """many points of which few are close: chains, rings and small groups strung out"""
    p, x = [], 0
    while len(p) < n:
        k = R.randrange(5)
        if k == 0: g = [[0, i * 2] for i in range(R.randint(1, 6))]
        elif k == 1: g = circle(R, R.choice([4, 5, 6, 7]), R.choice([3, 4]), 0)
        elif k == 2: g = cloud(R, R.randint(1, 4), 2, 2)
        elif k == 3: g = [[0, 0], [0, 2], [2, 0], [2, 2]]
        else: g = [[i, i * i % 3] for i in range(R.randint(2, 5))]
        p += [[a + x, b] for a, b in g]
        x += R.choice([7, 9, 15, 2])
    return Case('P', shuffled(R, p[:n]), R.choice([1.5, 2.5, 2.5, 3.5, 4.5]), R.choice([1, 2, 2, 3]), R.choice(list(types)), stages)


def dense(R, stages, types=TYPES, lo=23, hi=27):
    """more than 256 edges, and the triangles on them"""
    n = R.randint(lo, hi)
    p = cloud(R, n, R.choice([2, 3]), R.choice([9, 60])) if R.random() < .5 else circle(R, n, R.choice([40, 300]), 2)
    return Case('P', p, int(diam(p) * R.choice([.7, .9, 1.1])) + .5, 2, R.choice(list(types)), stages)


def star(R, stages, types=TYPES):
    """hubs near everything, the other points far from each other: nodes with many children"""
    n = R.randint(30, 90)
    hubs = set(R.sample(range(n), R.randint(1, 2)))
    d = [[0 if j <= i else R.randint(1, 3) if i in hubs or j in hubs else R.choice([4, 9, 9, 9, 9, 9]) if R.random() < .1 else 9
          for j in range(n)] for i in range(n)]
    return Case('M', d, R.choice([3.5, 4.5]), R.choice([1, 2, 3]), R.choice(list(types)), stages)


def deep(R, stages, types=TYPES, nmax=9):
    """few points and many dimensions: simplices of up to nine vertices, spheres of dimension three and four"""
    k = R.randrange(4)
    t = R.choice(list(types))
    if k == 0:
        d = R.choice([4, 5])
        p = cross(R, d, 6, 0 if R.random() < .5 else 1)
        if 2 * d < nmax and R.random() < .5: p += cloud(R, 1, d, 7)
        return Case('P', shuffled(R, p), R.choice([9.5, 10.5, 10.5, 11.5] + [12.5, 13.5] * (2 * d <= nmax)), R.randint(d, d + 1), t, stages)
    n = R.randint(5, nmax)
    if k == 1:
        p = cloud(R, n, R.choice([2, 5]), R.choice([2, 5, 9]))
        return Case('P', p, int(diam(p) * R.choice([.7, .9, 1.1])) + .5, R.randint(4, 8), t, stages)
    d = matrix(R, n, R.choice([2, 3, 7]))
    if k == 2: d = [[0 if j <= i else R.choice([1, 2, 2, 2, 3]) for j in range(n)] for i in range(n)]
    return Case('M', d, R.choice([2.5, 3.5, 3.5, 8.5]), R.randint(4, 8), t, stages)


def disc(R, stages, types=TYPES, k=None):
    """a triangulated square (or a tube) whose rim comes first and is filled from one side or inwards: long reductions"""
    k = k or R.choice([6, 7, 8, 9])
    tube = R.random() < .3
    at = {v: i for i, v in enumerate(R.sample([(i, j) for i in range(k) for j in range(k)], k * k))}
    rim = lambda p: not all(0 < x < k - 1 for x in (p if not tube else p[:1]))
    ring = lambda p, q: min(min(x, k - 1 - x) for y in (p, q) for x in y)
    side = R.randrange(4)
    d = [[0 if j <= i else 99 for j in range(k * k)] for i in range(k * k)]
    for i, j in at:
        for a, b in ((1, 0), (0, 1), (1, 1)):
            q = (i + a, (j + b) % k if tube else j + b)
            if q not in at: continue
            if rim((i, j)) and rim(q) and (a == 0 or b == 0) and ((i == q[0] and i in (0, k - 1)) or (not tube and j == q[1] and j in (0, k - 1))): w = 1
            elif side == 0: w = 2
            elif side == 1: w = 2 + i + q[0] + (0 if tube else j + q[1])
            elif side == 2: w = 2 + ring((i, j), q) * 10 + R.randint(0, 9)
            else: w = R.randint(2, 20)
            x, y = sorted((at[(i, j)], at[q]))
            d[x][y] = w
    return Case('M', d, 60.5, 2, R.choice(list(types)), stages)


def annulus(R, stages, types=TYPES, n=None):
    """points strewn over a ring, all distances different: loops that die late through chains of many edges"""
    n = n or R.randint(16, 24)
    a, b = R.choice([(30, 45), (25, 45), (35, 48)])
    p = []
    while len(p) < n:
        q = [R.randint(-b, b), R.randint(-b, b)]
        if a * a <= q[0] ** 2 + q[1] ** 2 <= b * b and q not in p: p.append(q)
    return Case('P', p, R.choice([62.5, 72.5, 95.5]), 2, R.choice(list(types)), stages)
