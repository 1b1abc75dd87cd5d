"""C06: the interval table."""
import flow
from homology import *
from C04 import loopy, loop_matrix


def table_trace(case, ans):
    return case.trace(ans, want=('bars', 'table'))


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_pipe')
    r = ck.design('MC_LHF', 'MC_LHF4w3.cfg', 'all 4-point weight matrices over {1,2,3}; emitted for replay')
    cases = [Case('M', c['D'], c['lim'], c['dims'], R.choice(TYPES), tag='TLC') for c in r['printed'] if big or R.random() < .5]
    flow.judge(ck, 'drv_pipe', cases, lambda c: c.line('quiet'), table_trace, 'LHFTrace', show=Case.show, what='interval table')
    items = []
    for i in range(6000 if big else 900):
        t, k = R.choice(TYPES), R.choice([1, 2, 2, 3])
        if R.random() < .45:
            d = loop_matrix(R) if R.random() < .5 else matrix(R, R.randint(1, 9), R.choice([2, 3, 6, 30]))
            items.append(Case('M', d, R.choice([0.5, 1.5, 3, 4.5, 6, 9, 31]), k, t))
        else:
            p = loopy(R, 11) if R.random() < .5 else any_cloud(R, 11)
            items.append(Case('P', p, pick_eps(R, p), k, t))
    for i in range(300 if big else 40):
        items.append(sparse(R, R.randint(13, 60), 'distMatrix.neighGraph.rips.fastPersistence'))
    items += [dense(R, 'distMatrix.neighGraph.rips.fastPersistence') for i in range(100 if big else 12)] + [star(R, 'distMatrix.neighGraph.rips.fastPersistence') for i in range(60 if big else 8)]
    items += [deep(R, 'distMatrix.neighGraph.rips.fastPersistence', nmax=8) for i in range(600 if big else 60)]
    items += [disc(R, 'distMatrix.neighGraph.rips.fastPersistence') for i in range(40 if big else 4)]
    items += [annulus(R, 'distMatrix.neighGraph.rips.fastPersistence') for i in range(150 if big else 16)]
    for x in items: x.vary(R)
    flow.judge(ck, 'drv_pipe', items, lambda c: c.line('quiet'), table_trace, 'LHFTrace', show=Case.show, what='interval table')
