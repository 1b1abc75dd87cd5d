"""C08: the distance stage and the neighbourhood stage."""
import flow
from homology import *

STAGES = 'distMatrix.neighGraph'


def trace(case, ans):
    ev = []
    for e in ans['ev']:
        if e['e'] == 'dist':
            ev.append({'e': 'dist', 'm': [[case.project(x) for x in r] for r in e['m']], 'w': [case.project(x) for x in e['w']]})
        elif e['e'] == 'nbr':
            ev.append({'e': 'nbr', 'vertices': e['vertices']})
    if ans['crash'] or not ans['ev'] or ans['ev'][-1]['e'] != 'end':
        ev.append({'e': 'crash'})
    return {'P': [[int(2 * x) for x in p] for p in case.data], 'lim': case.lim(), 'ev': ev}


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_pipe')
    r = ck.design('MC_Dist', 'MC_Dist.cfg', 'all clouds of at most 3 points on a 4x2 grid: pairwise loop = definition, triangle inequality')
    go = lambda items: flow.judge(ck, 'drv_pipe', items, Case.line, trace, 'DistTrace', show=Case.show, what='distance stage')
    go([Case('P', [[x / 2 for x in p] for p in c['P']], (c['lim'] ** .5) / 2, 1, R.choice(TYPES), STAGES, 'TLC')
        for c in r['printed'] if big or R.random() < .7])
    items = []
    for i in range(6000 if big else 900):
        k = R.randrange(5)
        if k == 0: p = any_cloud(R, 14)
        elif k == 1: p = half(R, cloud(R, R.randint(1, 20), R.randint(1, 7), R.choice([2, 9, 40])))
        elif k == 2: p = line_pts(R, R.randint(1, 15), 8)
        elif k == 3: p = cloud(R, R.randint(1, 40) if R.random() < .9 else R.randint(60, 140), 2, 50) if R.random() < .8 else cloud(R, R.randint(1, 12), R.randint(8, 70), R.choice([1, 3, 6]))
        else:
            p = cloud(R, R.randint(1, 8), 2, 6)
            for _ in range(R.randint(1, 2)):
                p.insert(R.randint(0, len(p)), [])
        e = pick_eps(R, [x for x in p if x] or [[0], [0]]) if R.random() < .6 else R.randint(1, 9)
        items.append(Case('P', p, e, R.randint(1, 2), R.choice(TYPES), STAGES))
        if R.random() < .06: items[-1].fine(R)
        else: items[-1].vary(R, text=False)
    go(items)
