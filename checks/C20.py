"""C20: the GF(2) routines."""
import itertools
import flow

uv = lambda v: '%d %s' % (len(v), ' '.join(map(str, v)))
um = lambda m: '%d %s' % (len(m), ' '.join(uv(r) for r in m))
pos = lambda m: [[i for i, x in enumerate(r) if x] for r in m]


class Calls:
    """('rank', m, off) ('red', m) ('bnd', fs, ss) ('face', f, s) ('nsim', lim, n, [(w, s)])"""

    def __init__(self, calls):
        self.calls = calls

    def line(self):
        o = []
        for c in self.calls:
            if c[0] == 'rank': o.append('RANK %s %d' % (um(c[1]), c[2]))
            elif c[0] == 'red': o.append('RED ' + um(c[1]))
            elif c[0] == 'bnd': o.append('BND %s %s' % (um(c[1]), um(c[2])))
            elif c[0] == 'face': o.append('FACE %s %s' % (uv(c[1]), uv(c[2])))
            else: o.append('NSIM %d %d %d %s' % (c[1], c[2], len(c[3]), ' '.join('%d %s' % (w, uv(s)) for w, s in c[3])))
        return ' '.join(o)

    def trace(self, ans):
        ev = []
        bits = lambda m, w: all(len(r) == w and all(x in (0, 1) for x in r) for r in m)
        for c, e in zip(self.calls, ans['ev']):
            if e['e'] != c[0]:
                ev.append({'e': 'crash'}); continue
            if c[0] == 'rank': ev.append({'e': 'rank', 'm': pos(c[1]), 'r': e['r'], 'same': e['same']})
            elif c[0] == 'red':
                w = len(c[1][0]) if c[1] else 0
                ev.append({'e': 'red', 'm': pos(c[1]), 'w': w, 'r': pos(e['m']), 'good': bits(e['m'], w),
                           'rank': e['rank'], 'nul': e['nul'], 'same': e['same']})
            elif c[0] == 'bnd':
                ev.append({'e': 'bnd', 'f': c[1], 's': c[2], 'r': pos(e['m']), 'rank': e['rank'], 'nul': e['nul'],
                           'good': bits(e['m'], len(c[2]))})
            elif c[0] == 'face': ev.append({'e': 'face', 'f': c[1], 's': c[2], 'b': e['b'], 'p': e['p'], 'x': e['s']})
            else: ev.append({'e': 'nsim', 'lim': c[1], 'n': c[2], 'in': [{'w': w, 's': s} for w, s in c[3]], 'b': e['b'], 'p': e['p']})
        if ans['crash'] or len(ans['ev']) != len(self.calls):
            ev.append({'e': 'crash'})
        return {'ev': ev}

    def show(self):
        return self.calls


def random_matrix(R, big):
    r, k = R.randint(0, 12 if big else 9), R.randint(0, 12 if big else 9)
    if R.random() < .02: r, k = R.choice([(20, 140), (70, 70), (140, 20)])
    if r == 0: return []
    d = R.choice([.15, .3, .5, .8])
    m = [[int(R.random() < d) for _ in range(k)] for _ in range(r)]
    for i in range(r):                       # dependent, equal and zero rows
        if R.random() < .25 and i:
            a, b = R.randrange(i), R.randrange(i)
            m[i] = [x ^ y for x, y in zip(m[a], m[b])]
        elif R.random() < .1 and i: m[i] = m[R.randrange(i)][:]
        elif R.random() < .05: m[i] = [0] * k
    return m


def families(R):
    n, d = R.randint(1, 6), R.randint(1, 3)
    fs = [list(s) for s in itertools.combinations(range(n), d)]
    ss = [list(s) for s in itertools.combinations(range(n), d + 1)]
    fs = [s for s in fs if R.random() < .8][:14]
    ss = [s for s in ss if R.random() < .8][:14]
    R.shuffle(fs); R.shuffle(ss)
    for s in fs + ss:
        if R.random() < .2: R.shuffle(s)
    return fs, ss


def random_call(R, big):
    k = R.randrange(10)
    if k < 4: return ('rank', random_matrix(R, big), R.randint(0, 20))
    if k < 7: return ('red', random_matrix(R, big))
    if k == 7:
        fs, ss = families(R)
        return ('bnd', fs, ss)
    if k == 8:
        a = R.sample(range(6), R.randint(0, 4))
        b = R.sample(range(6), R.randint(0, 4)) if R.random() < .4 else a + R.sample(range(6, 9), R.randint(0, 2))
        return ('face', a, b)
    return ('nsim', R.randint(0, 6), R.randint(0, 3), [(R.randint(0, 7), R.sample(range(6), R.randint(0, 3))) for _ in range(R.randint(0, 8))])


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_utils')
    r = ck.design('MC_Gf2', 'MC_Gf2.cfg', 'all matrices of at most %s: each row addition keeps the span; pivots = rows at which the rank grows' % ('4x3' if big else '3x3'),
                  consts={'R': '4' if big else '3'})
    items = []
    for x in r['printed']:
        m = [[int(i in row) for i in range(x['w'])] for row in x['m']]
        items.append(Calls([('rank', m, R.randint(0, 5)), ('red', m)]))
    items += [Calls([random_call(R, big) for _ in range(12)]) for _ in range(4000 if big else 400)]
    flow.judge(ck, 'drv_utils', items, Calls.line, Calls.trace, 'Gf2Trace', show=Calls.show, what='GF(2) routine')
