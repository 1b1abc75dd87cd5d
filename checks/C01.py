"""C01: the listed complex is the Vietoris-Rips complex."""
import flow
from homology import *

STAGES = 'distMatrix.neighGraph.rips'


def steps(case):
    """a storage history that lists the complex after every insertion"""
    n = case.n
    ops = ['M %d %s' % (n, case.rowsline())]
    for i in range(n):
        ops.append('I 1 %d' % i)
        if case.typ != LIST:
            ops.append('Q')
    if case.typ == LIST:
        ops.append('Q')
        ops.append('X %d' % case.dims)
        ops.append('Q')
    return '%s %r %d %s' % (case.typ, case.limit(), case.dims, ' '.join(ops))


def steps_trace(case, ans):
    ev, m, top = [], 0, (1 if case.typ == LIST else case.dims)
    for e in ans['ev']:
        if e['e'] == 'insert':
            m += 1
            ev.append({'e': 'insert', 'm': m, 'top': top})
        elif e['e'] == 'expand':
            top = case.dims
            ev.append({'e': 'insert', 'm': m, 'top': top})
        elif e['e'] == 'query':
            ev.append({'e': 'list', 's': [[s, case.project(w)] for s, w in e['simplices']], 'pure': e['pure'],
                       'sorted': e['sorted'], 'count': e['count'], 'vertices': e['vertices']})
    if ans['crash'] or sum(1 for e in ans['ev'] if e['e'] == 'insert') < case.n:
        ev.append({'e': 'crash'})
    return {'n': case.n, 'D': case.weights(), 'lim': case.lim(), 'closed': case.closed(), 'dims': case.dims, 'ev': ev}


def run(ck):
    R = ck.rng
    ck.build('drv_pipe', 'drv_complex')
    ck.design('MC_LHF', 'MC_LHF4.cfg', 'all 4-point weight matrices over {1,2}: incremental construction = definition, face closed, persistence = definition')
    big = ck.thorough
    # behaviours of the specification replayed in the code: every 4-point matrix over {1,2,3}
    r = ck.design('MC_LHF', 'MC_LHF4w3.cfg', 'all 4-point weight matrices over {1,2,3}, emitted for replay',
                  **({} if not big else {}))
    cases = []
    for c in r['printed']:
        for t in TYPES:
            if not big and R.random() < 0.5:
                continue
            cases.append(Case('M', c['D'], c['lim'], c['dims'], t, STAGES, 'TLC'))
    flow.judge(ck, 'drv_complex', cases, steps, steps_trace, 'LHFTrace', show=Case.show, what='insertion history')
    # recorded runs
    items = []
    for i in range(6000 if big else 900):
        if R.random() < 0.45:
            n = R.randint(0, 9 if R.random() < .8 else 12)
            d = matrix(R, n, R.choice([2, 3, 5, 12]), R.choice([0, 0, 0.1]))
            items.append(Case('M', d, R.choice([0.5, 1, 1.5, 2, 3, 4, 6, 13]), R.randint(1, 4 if n < 9 else 3), R.choice(TYPES), STAGES))
        else:
            p = any_cloud(R, 11)
            # also limits that are attained exactly (one coordinate: distances are integers)
            if R.random() < .25:
                p = line_pts(R, R.randint(1, 12), 12)
                e = R.randint(1, 9)
            else:
                e = pick_eps(R, p)
            items.append(Case('P', p, e, R.randint(1, 4 if len(p) < 9 else 3), R.choice(TYPES), STAGES))
    # many points, few of them close
    for i in range(600 if big else 60):
        items.append(sparse(R, R.randint(13, 90), STAGES))
    items += [dense(R, STAGES) for i in range(100 if big else 12)] + [star(R, STAGES) for i in range(100 if big else 16)]
    items += [deep(R, STAGES) for i in range(1000 if big else 90)]
    for x in items:
        if R.random() < .05: x.fine(R)
        else: x.vary(R, text=False)
    pm = [x for x in items if x.kind == 'P']
    flow.judge(ck, 'drv_pipe', pm, Case.line, lambda c, a: c.trace(a, want=('list',)), 'LHFTrace', show=Case.show, what='pipeline run')
    mm = [x for x in items if x.kind == 'M']
    flow.judge(ck, 'drv_complex', mm, steps, steps_trace, 'LHFTrace', show=Case.show, what='insertion history')
