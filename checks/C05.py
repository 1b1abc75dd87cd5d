"""C05: the barcode is a function of the metric."""
import flow
from homology import *
from C04 import loopy, loop_matrix


class Family:
    """one base case and presentations of the same metric"""

    def __init__(self, cases, perms, scales):
        self.cases, self.perms, self.scales = cases, perms, scales

    def show(self):
        return {'base': self.cases[0].show(), 'others': [dict(c.show(), perm=p, scale=s) for c, p, s in
                                                         zip(self.cases[1:], self.perms[1:], self.scales[1:])]}


def transform(R, base):
    """another presentation: (case, perm, weight scale)"""
    n = base.n
    perm = list(range(n))
    sc, eps, typ, dims = 1, base.eps, R.choice(TYPES), base.dims
    if R.random() < .7:
        R.shuffle(perm)           # point p of base becomes perm[p]
    inv = [0] * n
    for p, q in enumerate(perm):
        inv[q] = p
    if R.random() < .3:
        dims = max(1, min(4, dims + R.choice([-1, 1])))
    if base.kind == 'M':
        d = base.data
        w = lambda a, b: d[min(a, b)][max(a, b)]
        f = R.choice([1, 1, 2, 3])
        data = [[f * w(inv[i], inv[j]) if i < j else 0 for j in range(n)] for i in range(n)]
        return Case('M', data, base.eps * f, dims, typ, base.stages), perm, f
    pts = [list(base.data[inv[i]]) for i in range(n)]
    dim = len(pts[0]) if pts else 1
    k = R.randrange(6)
    if k == 0:
        o = [R.randint(-20, 20) for _ in range(dim)]
        pts = [[a + b for a, b in zip(p, o)] for p in pts]
    elif k == 1:
        i = R.randrange(dim)
        pts = [[-a if j == i else a for j, a in enumerate(p)] for p in pts]
    elif k == 2:
        s = list(range(dim)); R.shuffle(s)
        pts = [[p[j] for j in s] for p in pts]
    elif k == 3:
        pts = [p + [7] for p in pts]
    elif k == 4:
        f = R.choice([2, 3])
        pts = [[f * a for a in p] for p in pts]
        eps *= f
        sc = f * f
    return Case('P', pts, eps, dims, typ, base.stages), perm, sc


def family(R, big):
    k = R.choice([1, 2, 2, 3])
    if R.random() < .4:
        d = loop_matrix(R) if R.random() < .5 else matrix(R, R.randint(1, 9), R.choice([2, 3, 8]))
        # storages differ at the limit, so it is never attained
        base = Case('M', d, R.choice([0.5, 1.5, 2.5, 3.5, 5.5, 9.5]), k, R.choice(TYPES))
    else:
        p = loopy(R, 14) if R.random() < .6 else any_cloud(R, 13)
        while max(abs(x) for q in p for x in q) > 3000: p = any_cloud(R, 13)      # nine times the squares have 31 bits
        base = Case('P', p, safe_eps(p, pick_eps(R, p)), k, R.choice(TYPES))
    cs, ps, ss = [base], [list(range(base.n))], [1]
    for _ in range(3):
        c, p, s = transform(R, base)
        cs.append(c); ps.append(p); ss.append(s)
    return Family(cs, ps, ss)


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_pipe')
    ck.design('MC_Metric', 'MC_Metric.cfg', 'all 4-point weight matrices: the barcode commutes with all 24 renamings, scaling and raising the dimension',
              consts={'MaxW': 3} if big else None)
    fams = [family(R, big) for _ in range(3000 if big else 450)]
    judge(ck, fams)


def judge(ck, fams):
    lines = [c.line('quiet') for f in fams for c in f.cases]
    def record(fams):
        ans = ck.drive('drv_pipe', [c.line('quiet') for f in fams for c in f.cases])
        out, i = [], 0
        for f in fams:
            ev, first = [], None
            mine = ans[i:i + len(f.cases)]
            i += len(f.cases)
            if any(a['crash'] == 'skipped' for a in mine):
                mine = []
            for a, c, p, s in zip(mine, f.cases, f.perms, f.scales):
                b = [e for e in a['ev'] if e['e'] == 'bars']
                if a['crash'] or not b:
                    ev.append({'e': 'crash'})
                    if not first:
                        break
                    continue
                first = True
                ev.append({'e': 'run', 'D': c.weights(), 'lim': c.lim(), 'dims': c.dims, 'perm': p, 'sc': s,
                           'b': c.parse_bars(b[0]['text'])})
            out.append({'n': f.cases[0].n, 'ev': ev})
        return out
    tr = record(fams)
    for k, step in ck.validate('MetricTrace', 'Trace.cfg', tr):
        t2 = record([fams[k]])
        b2 = ck.validate('MetricTrace', 'Trace.cfg', t2)
        if b2:
            e = t2[0]['ev'][b2[0][1] - 1]
            ck.violation('intervals of two presentations of one metric differ: %s' % str(fams[k].show())[:400],
                         {'driver': 'drv_pipe', 'cases': [c.line('quiet') for c in fams[k].cases],
                          'family': fams[k].show(), 'rejected_event': e, 'trace': t2[0]})
            ck.hangs += e['e'] == 'crash'
            ck.enough()
    ck.samples.append(str(tr[len(tr) // 2])[:1500])
    ck.extra['runs_of_the_real_code'] = len(lines)
