"""C23: the alternative persistence stage."""
import flow
from homology import *
from C04 import loopy, loop_matrix

STAGES = 'distMatrix.neighGraph.rips.persistence'


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_pipe')
    r = ck.design('MC_LHF', 'MC_LHF4w3.cfg', 'all 4-point weight matrices over {1,2,3}; emitted for replay')
    tr = lambda c, a: c.trace(a, want=('bars',))
    line = lambda c: c.line('quiet')
    cases = [Case('M', c['D'], c['lim'], c['dims'], t, STAGES, tag='TLC') for c in r['printed'] for t in (TREE, LIST) if big or R.random() < .3]
    r2 = ck.design('MC_LHF', 'MC_LHFocta.cfg', 'octahedron family (2-sphere, 6 points, dimension 3); emitted for replay')
    cases += [Case('M', c['D'], c['lim'], c['dims'], t, STAGES, tag='TLC octahedron') for c in r2['printed'] for t in (TREE, LIST)]
    flow.judge(ck, 'drv_pipe', cases, line, tr, 'LHFTrace', show=Case.show, what='barcode of the alternative stage')
    items = []
    for i in range(4000 if big else 600):
        t, k = R.choice([TREE, LIST]), R.choice([1, 2, 2, 3])
        if R.random() < .45:
            d = loop_matrix(R) if R.random() < .5 else matrix(R, R.randint(1, 8), R.choice([2, 3, 6, 30]))
            items.append(Case('M', d, R.choice([0.5, 1.5, 3, 4.5, 6, 9, 31]), k, t, STAGES))
        else:
            p = loopy(R, 9) if R.random() < .5 else any_cloud(R, 9)
            items.append(Case('P', p, pick_eps(R, p), k, t, STAGES))
    for i in range(300 if big else 40):
        items.append(sparse(R, R.randint(13, 60), STAGES, (TREE, LIST)))
    items += [dense(R, STAGES, (TREE, LIST)) for i in range(60 if big else 6)] + [star(R, STAGES, (TREE, LIST)) for i in range(60 if big else 8)]
    items += [deep(R, STAGES, (TREE, LIST), nmax=8) for i in range(600 if big else 50)]
    items += [disc(R, STAGES, (TREE, LIST)) for i in range(40 if big else 4)]
    items += [annulus(R, STAGES, (TREE, LIST), n=R.randint(12, 18)) for i in range(40 if big else 4)]
    for x in items: x.vary(R)
    flow.judge(ck, 'drv_pipe', items, line, tr, 'LHFTrace', show=Case.show, what='barcode of the alternative stage', timeout=60)
