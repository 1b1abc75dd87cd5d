"""C19: the set helpers."""
import flow

WHICH = ['vint', 'sint', 'vdiff', 'sdiff', 'vuni', 'xor', 'pair']
uv = lambda v: '%d %s' % (len(v), ' '.join(map(str, v)))


class Calls:
    """a sequence of calls: ('set', which, sorted, a, b) and ('sub', kind, k, a)"""

    def __init__(self, calls):
        self.calls = calls

    def line(self):
        return ' '.join('SET %s %d %s %s' % (c[1], c[2], uv(c[3]), uv(c[4])) if c[0] == 'set' else
                        'SUB %s %d %s' % (c[1], c[2], uv(c[3])) for c in self.calls)

    def trace(self, ans):
        # vertices enter the specification by rank, which keeps their order
        vals = sorted({x for c in self.calls for q in c[3:] for x in q})
        rk = {x: i for i, x in enumerate(vals)}
        m = lambda q: [rk.get(x, 9999) for x in q]
        ev = []
        for c, e in zip(self.calls, ans['ev']):
            if c[0] == 'set' and e['e'] == 'set':
                ev.append({'e': 'set', 'w': c[1], 'a': m(c[3]), 'b': m(c[4]), 'r': m(e['r']), 'u': m(e['u']), 'same': e['same']})
            elif c[0] == 'sub' and e['e'] == 'sub':
                ev.append({'e': 'sub', 'kind': c[1], 'k': c[2], 'a': m(c[3]), 'r': [m(s) for s in e['r']]})
            else:
                ev.append({'e': 'crash'})
        if ans['crash'] or len(ans['ev']) != len(self.calls):
            ev.append({'e': 'crash'})
        return {'ev': ev}

    def show(self):
        return self.calls


def some_set(R, other=None, large=True):
    top = R.choice([3, 6, 12, 40, 2 ** 31 - 1, 2 ** 32 - 1])
    k = R.choice([0, 1, 1, 2, 3, 4, 6, 9]) if not large or R.random() < .95 else R.choice([40, 120])
    s = {R.randint(max(0, top - 60 if k < 10 else top - 400), top) for _ in range(k)}
    if other is not None and R.random() < .8:       # near the other one
        s = set(other)
        for _ in range(R.choice([0, 1, 1, 2, 2, 3])):
            if s and R.random() < .5: s.discard(R.choice(sorted(s)))
            else: s.add(R.choice([0, 1, R.randint(0, top), top]))
    return s


def random_call(R):
    if R.random() < .78:
        a = some_set(R); b = some_set(R, a)
        if R.random() < .5: a, b = b, a
        srt = R.random() < .6
        a, b = sorted(a), sorted(b)
        w = R.choice(WHICH)
        if not srt and w[0] in 'vp':
            R.shuffle(a); R.shuffle(b)
        return ('set', w, int(srt), a, b)
    a = sorted(some_set(R, large=False))
    kind = R.choice('skv')
    if kind == 'v' and R.random() < .5: R.shuffle(a)
    return ('sub', kind, R.randint(0, len(a) + 1), a)


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_utils')
    r = ck.design('MC_Sets', 'MC_Sets.cfg', 'all pairs of subsets of %d vertices: the merging scan yields the exact result' % (6 if big else 5),
                  consts={'V': '6' if big else '5'})
    items = []
    for x in r['printed']:
        a, b = x['a'], x['b']
        calls = [('set', w, 1, a, b) for w in WHICH]
        ra, rb = a[:], b[:]
        R.shuffle(ra); R.shuffle(rb)
        calls += [('set', w, 0, ra, rb) for w in ['vint', 'vdiff', 'vuni', 'pair']]
        if not b:
            calls += [('sub', 's', 0, a), ('sub', 'v', 0, ra)] + [('sub', 'k', k, a) for k in range(len(a) + 2)]
        items.append(Calls(calls))
    items += [Calls([random_call(R) for _ in range(20)]) for _ in range(6000 if big else 500)]
    flow.judge(ck, 'drv_utils', items, Calls.line, Calls.trace, 'SetsTrace', show=Calls.show, what='set helper')
