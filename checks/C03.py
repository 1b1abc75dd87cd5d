"""C03: dimension 0 intervals."""
import flow
from homology import *


def bars_trace(case, ans):
    return case.trace(ans, want=('bars',), dims=[0])


def big_cloud(R, n):
    k = R.randrange(6)
    if k == 0: return cloud(R, n, 2, R.choice([3, 10, 60]))
    if k == 1: return cloud(R, n, 3, R.choice([2, 6, 20]))
    if k == 2: return shuffled(R, clusters(R, R.randint(2, 6), max(1, n // 5), 2, R.choice([9, 20]), 3))
    if k == 3: return shuffled(R, grid(R.randint(2, 6), max(1, n // 6), R.choice([1, 3])))
    if k == 4: return line_pts(R, n, R.choice([20, 100]))
    p = cloud(R, max(1, n // 3), 2, 9)
    return shuffled(R, (p * 4)[:n])


def run(ck):
    R = ck.rng
    ck.build('drv_pipe')
    ck.design('MC_LHF', 'MC_LHF4.cfg', 'all 4-point weight matrices over {1,2}: Kruskal sweep never splits a component, one interval per vertex, persistence = definition')
    # behaviours of the specification: every 4-point matrix over {1,2,3}, expected bars from the final state
    r = ck.design('MC_LHF', 'MC_LHF4w3.cfg', 'all 4-point weight matrices over {1,2,3}, emitted for replay')
    cases = [Case('M', c['D'], c['lim'], c['dims'], R.choice(TYPES), tag='TLC') for c in r['printed'] if ck.thorough or R.random() < .5]
    flow.judge(ck, 'drv_pipe', cases, lambda c: c.line('quiet'), bars_trace, 'LHFTrace', show=Case.show, what='barcode')
    items = []
    for i in range(4000 if ck.thorough else 500):
        if R.random() < .5:
            n = R.randint(1, 10)
            items.append(Case('M', matrix(R, n, R.choice([2, 3, 5, 20])), R.choice([0.5, 1, 1.5, 2, 3, 4, 6, 21]), R.randint(1, 3), R.choice(TYPES)))
        else:
            p = any_cloud(R, 10)
            items.append(Case('P', p, pick_eps(R, p), R.randint(1, 3), R.choice(TYPES)))
    # large inputs, dimension 1 (components only)
    for i in range(1500 if ck.thorough else 250):
        n = R.randint(11, 60 if R.random() < .3 else 30)
        if R.random() < .4:
            items.append(Case('M', matrix(R, n, R.choice([3, 12, 100])), R.choice([1.5, 3, 6, 50.5]), 1, R.choice(TYPES)))
        else:
            p = big_cloud(R, n)
            items.append(Case('P', p, pick_eps(R, p) if R.random() < .5 else R.choice([0.5, 1.5, 2.5, 4.5]), 1, R.choice(TYPES)))
    # very many points
    S1 = 'distMatrix.neighGraph.rips.fastPersistence'
    for i in range(60 if ck.thorough else 8):
        x = sparse(R, R.randint(100, 300), S1)
        x.dims = 1
        items.append(x)
        items.append(Case('P', cloud(R, R.randint(60, 110), 2, 300), R.choice([20.5, 60.5, 130.5]), 1, R.choice(TYPES), S1))
    items += [star(R, S1) for i in range(40 if ck.thorough else 6)]
    for x in items:
        if R.random() < .06: x.fine(R)
        else: x.vary(R)
    flow.judge(ck, 'drv_pipe', items, lambda c: c.line('quiet'), bars_trace, 'LHFTrace', show=Case.show, what='barcode')
