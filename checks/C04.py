"""C04: intervals of dimension >= 1."""
import flow
from homology import *


def bars_trace(case, ans):
    return case.trace(ans, want=('bars',), dims=list(range(1, max(case.dims, 2))))


def loopy(R, nmax):
    """inputs rich in loops and voids, with ties"""
    k = R.randrange(9)
    if k == 0: p = circle(R, R.randint(4, 10), R.choice([4, 7, 10, 20]), R.choice([0, 0, 1]))
    elif k == 1: p = cross(R, R.choice([2, 3]), R.choice([3, 5, 8]), R.choice([0, 1, 2]))
    elif k == 2: p = cube(R.choice([1, 2, 5]), 3)
    elif k == 3: p = grid(R.randint(2, 4), R.randint(2, 3), R.choice([1, 2, 4]))
    elif k == 4: p = wedge(R, 2, R.choice([4, 5]), R.choice([3, 6]))
    elif k == 5: p = circle(R, 6, 8, 1) + cloud(R, 3, 2, 12)
    elif k == 6: p = cloud(R, R.randint(5, nmax), R.choice([2, 3]), R.choice([3, 6, 12]))
    elif k == 7: p = [q + [R.choice([0, 3])] for q in circle(R, R.randint(5, 9), 7, 1)]
    else: p = [[a] + b for a, b in zip([0, 6, 0, 6, 0, 6, 0, 6], circle(R, 8, 9))][:8]
    p = p[:nmax]
    return shuffled(R, p)


def loop_matrix(R):
    """cycle graphs and cross polytopes as weights: short where adjacent, long otherwise"""
    k = R.randrange(4)
    if k == 0:
        n = R.randint(4, 8)
        adj = lambda i, j: (j - i) % n in (1, n - 1)
    elif k == 1:
        n = 6
        adj = lambda i, j: i // 2 != j // 2
    elif k == 2:
        n = 8
        adj = lambda i, j: i // 2 != j // 2
    else:
        n = R.randint(4, 8)
        s = {(i, j): R.random() < .5 for i in range(n) for j in range(n)}
        adj = lambda i, j: s[(i, j)]
    perm = list(range(n))
    R.shuffle(perm)
    lo, hi = R.choice([1, 2, 3]), R.choice([4, 6, 9])
    w = {}
    for i in range(n):
        for j in range(i + 1, n):
            w[frozenset((perm[i], perm[j]))] = R.randint(1, lo) if adj(i, j) else R.randint(lo + 1, hi)
    return [[w[frozenset((i, j))] if i < j else 0 for j in range(n)] for i in range(n)]


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_pipe')
    # exhaustive: stepwise column reduction = rank definition of persistent homology
    r = ck.design('MC_LHF', 'MC_LHF4w3.cfg', 'all 4-point weight matrices over {1,2,3}: reduction = persistent homology; emitted for replay')
    r2 = ck.design('MC_LHF', 'MC_LHFocta.cfg', 'octahedron family (2-sphere, 6 points, dimension 3); emitted for replay')
    cases = [Case('M', c['D'], c['lim'], c['dims'], t, tag='TLC') for c in r['printed'] for t in TYPES if big or R.random() < .3]
    cases += [Case('M', c['D'], c['lim'], c['dims'], t, tag='TLC octahedron') for c in r2['printed'] for t in TYPES]
    flow.judge(ck, 'drv_pipe', cases, lambda c: c.line('quiet'), bars_trace, 'LHFTrace', show=Case.show, what='barcode')
    items = []
    for i in range(8000 if big else 1000):
        t, k = R.choice(TYPES), R.choice([2, 2, 3, 3, 4])
        if R.random() < .45:
            d = loop_matrix(R) if R.random() < .7 else matrix(R, R.randint(4, 8), R.choice([2, 3, 6, 30]))
            items.append(Case('M', d, R.choice([1.5, 3, 4.5, 6, 9, 10, 31]), k, t))
        else:
            p = loopy(R, 11 if k < 4 else 8)
            items.append(Case('P', p, pick_eps(R, p), k, t))
    for i in range(300 if big else 40):
        items.append(sparse(R, R.randint(13, 60), 'distMatrix.neighGraph.rips.fastPersistence'))
    items += [dense(R, 'distMatrix.neighGraph.rips.fastPersistence') for i in range(100 if big else 12)] + [star(R, 'distMatrix.neighGraph.rips.fastPersistence') for i in range(60 if big else 8)]
    items += [deep(R, 'distMatrix.neighGraph.rips.fastPersistence', nmax=8) for i in range(1200 if big else 120)]
    items += [disc(R, 'distMatrix.neighGraph.rips.fastPersistence') for i in range(120 if big else 10)]
    items += [annulus(R, 'distMatrix.neighGraph.rips.fastPersistence') for i in range(100 if big else 10)]
    for x in items:
        if R.random() < .06: x.fine(R)
        else: x.vary(R)
    flow.judge(ck, 'drv_pipe', items, lambda c: c.line('quiet'), bars_trace, 'LHFTrace', show=Case.show, what='barcode')
    if big:
        items = []
        for i in range(600):
            p = loopy(R, 16)
            items.append(Case('P', p, pick_eps(R, p), R.choice([2, 3]), R.choice(TYPES)))
        flow.judge(ck, 'drv_pipe', items, lambda c: c.line('quiet'), bars_trace, 'LHFTrace', show=Case.show, what='barcode', timeout=60)
