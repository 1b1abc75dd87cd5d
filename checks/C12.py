"""C12: partitioning and mapping back."""
import flow
from C20 import uv, um

fm = lambda m: '%d %s' % (len(m), ' '.join('%d %s' % (len(r), ' '.join(repr(x / 2) for x in r)) for r in m))
BAD = -7777


def half2(x):
    """a coordinate of a returned point, doubled"""
    return int(round(2 * x)) if isinstance(x, (int, float)) and abs(2 * x - round(2 * x)) < 1e-9 else BAD


def sq4(x):
    """four times the square of a returned distance"""
    if not isinstance(x, (int, float)): return BAD
    v = 4 * x * x
    return int(round(v)) if abs(v - round(v)) < 1e-6 * max(1, v) else BAD


class Calls:
    """coordinates are doubled integers, radii are four times their value"""

    def __init__(self, calls):
        self.calls = calls

    def line(self):
        o = []
        for c in self.calls:
            k = c[0]
            if k == 'sep': o.append('SEP %d %s %s' % (c[3], fm(c[1]), uv(c[2])))
            elif k == 'sepr': o.append('SEPR %r %s %s %s' % (c[3] / 4, fm(c[2]), fm(c[1]), uv([0] * len(c[1]))))
            elif k == 'sepb': o.append('SEPB %s %s %s' % (um(c[3]), fm(c[1]), uv(c[2])))
            elif k == 'rad': o.append('RAD %s %s %s' % (fm(c[2]), fm(c[1]), uv(c[3])))
            elif k == 'nn': o.append('NN %s %s' % (fm([c[1]])[2:], fm(c[2])))
            elif k == 'map': o.append('MAP %s %d %s' % (uv(c[1]), len(c[2]), ' '.join('%d %r %r %s' % (d, b, e, uv(s)) for d, b, e, s in c[2])))
        return ' '.join(o)

    def trace(self, ans):
        ev = []
        h = lambda parts: [[[half2(x) for x in p] for p in part] for part in parts]
        for c, e in zip(self.calls, ans['ev']):
            k = c[0]
            if e['e'] != k:
                ev.append({'e': 'crash'}); continue
            if k == 'sep': ev.append({'e': k, 'X': c[1], 'L': c[2], 'k': c[3], 'idx': e['idx'], 'pts': h(e['pts'])})
            elif k == 'sepr': ev.append({'e': k, 'X': c[1], 'C': c[2], 'rad': c[3], 'idx': e['idx'], 'pts': h(e['pts'])})
            elif k == 'sepb': ev.append({'e': k, 'X': c[1], 'L': c[2], 'B': c[3], 'pts': h(e['pts'])})
            elif k == 'rad': ev.append({'e': k, 'X': c[1], 'C': c[2], 'L': c[3], 'r': sq4(e['r'])})
            elif k == 'nn': ev.append({'e': k, 'p': c[1], 'C': c[2], 'r': [sq4(x) for x in e['r']], 'same': e['same']})
            elif k == 'map':
                ev.append({'e': k, 'table': c[1], 'in': [s for _, _, _, s in c[2]], 'r': e['pts'],
                           'key': e['key'] == [[d, b, x] for d, b, x, _ in c[2]]})
        if ans['crash'] or len(ans['ev']) != len(self.calls):
            ev.append({'e': 'crash'})
        return {'ev': ev}

    def show(self):
        return self.calls


def random_calls(R):
    dim, n, k = R.randint(1, 5), R.choice([0, 1, 2, 5, 12, 30]), R.choice([1, 2, 3, 6, 9])
    if R.random() < .04: dim, n, k = R.choice([1, 2, 12, 40]), R.choice([70, 150, 300]), R.choice([4, 17, 40, 80])
    if R.random() < .01: dim, n, k = R.choice([1, 2]), R.choice([600, 1100]), R.choice([1, 2])
    g = R.choice([2, 6, 30])
    pt = lambda: [R.randint(-g, g) for _ in range(dim)]
    X = [pt() for _ in range(n)]
    for i in range(n):
        if R.random() < .15: X[i] = X[R.randrange(n)][:]
    C = [pt() if R.random() < .6 or not X else R.choice(X)[:] for _ in range(k)]
    L = [R.randrange(k) for _ in range(n)]
    if R.random() < .3: L = [min(range(k), key=lambda j: sum((a - b) ** 2 for a, b in zip(x, C[j]))) for x in X]
    r = R.choice([0, 1, R.randint(0, 8 * g), R.randint(0, 20 * g)])
    if X and R.random() < .6:               # exactly at a distance, where it is a whole number
        ds = [sum((a - b) ** 2 for a, b in zip(x, q)) for x in X for q in C]
        ok = [int((4 * d) ** .5 + .5) for d in ds if int((4 * d) ** .5 + .5) ** 2 == 4 * d]
        if ok: r = R.choice(ok)
    B = [R.sample(range(k), R.randint(0, k)) for _ in range(R.randint(0, 4))]
    calls = [('sep', X, L, k), ('sepr', X, C, r), ('sepb', X, L, B), ('rad', X, C, L), ('nn', pt(), C), ('nn', pt(), X)]
    m = R.randint(1, 12)
    if R.random() < .05: m = R.choice([70, 300])
    at = R.choice([40, 40, 300, 10 ** 9]) + m
    table = sorted(R.sample(range(at), m)) if R.random() < .7 else [R.randrange(20) for _ in range(m)]
    calls.append(('map', table, [(R.randint(0, 2), R.randint(0, 5) / 2, R.randint(3, 9) / 2, sorted(R.sample(range(m), R.randint(0, min(m, 5)))))
                                 for _ in range(R.randint(0, 6))]))
    R.shuffle(calls)
    return Calls(calls)


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_utils')
    r = ck.design('MC_Partition', 'MC_Partition.cfg', 'all labelled data of at most %d points: once each, in order, covered, mapped back' % (4 if big else 3),
                  consts={'N': '4' if big else '3'})
    pr = r['printed']
    pr = R.sample(pr, min(len(pr), 20000 if big else 1500))
    items = []
    for x in pr:
        items.append(Calls([('sep', x['X'], x['L'], len(x['C'])), ('sepr', x['X'], x['C'], x['r']), ('rad', x['X'], x['C'], x['L'])]))
    items += [random_calls(R) for _ in range(8000 if big else 900)]
    flow.judge(ck, 'drv_utils', items, Calls.line, Calls.trace, 'PartitionTrace', show=Calls.show, what='partitioning')
