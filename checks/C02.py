"""C02: life cycle of the storages."""
import flow
from homology import *

MATS = [[[0, 1, 2, 1], [0, 0, 1, 3], [0, 0, 0, 2], [0, 0, 0, 0]], [[0, 3, 1, 1], [0, 0, 2, 1], [0, 0, 0, 1], [0, 0, 0, 0]]]
OPS = {TREE: ['I', 'Q', 'C', 'D2'], LIST: ['I', 'Q', 'C', 'X2', 'F'], IND: ['I', 'Q', 'N', 'G', 'C']}


class Hist:
    """kind, eps, dim and a list of operations: ('M', matrix) ('I',) ('X', d) ('Q',) ('N',) ('D', size, flt) ('F', set) ('G',) ('C',)"""

    def __init__(self, kind, eps, dim, ops):
        self.kind, self.eps, self.dim, self.ops = kind, eps, dim, ops

    def line(self):
        o = []
        for x in self.ops:
            if x[0] == 'M':
                o.append('M %d %s' % (len(x[1]), ' '.join('%d %s' % (len(r), ' '.join(map(repr, r))) for r in x[1])))
            elif x[0] == 'I': o.append('I 1 7')
            elif x[0] == 'X': o.append('X %d' % x[1])
            elif x[0] == 'D':
                o.append('D %d %r' % ((x[1], float(x[2])) if self.kind == LIST else (x[1] - 1, float(x[2]))))
            elif x[0] == 'F': o.append('F %d %s' % (len(x[1]), ' '.join(map(str, x[1]))))
            else: o.append(x[0])
        return '%s %r %d %s' % (self.kind, float(self.eps), self.dim, ' '.join(o))

    def show(self):
        return {'kind': self.kind, 'eps': self.eps, 'dim': self.dim, 'ops': [list(x) for x in self.ops]}

    def trace(self, ans):
        pj = Case('M', [], 0, 1, self.kind).project
        ent = lambda q: [[s, pj(w)] for s, w in q]
        ev, it = [], iter(ans['ev'])
        for x in self.ops:
            e = next(it, None)
            if e is None:
                break
            o = x[0]
            if o == 'M': ev.append({'e': 'matrix', 'D': [[int(2 * a) for a in r] for r in x[1]]})
            elif o == 'I': ev.append({'e': 'insert'})
            elif o == 'X': ev.append({'e': 'expand', 'd': x[1]})
            elif o == 'C': ev.append({'e': 'clear'})
            elif o == 'N': ev.append({'e': 'count', 'count': e['count'], 'vertices': e['vertices']})
            elif o == 'Q': ev.append({'e': 'list', 's': ent(e['simplices']), 'pure': e['pure'], 'sorted': e['sorted'],
                                      'count': e['count'], 'vertices': e['vertices']})
            elif o == 'G':
                s = ent(e['simplices'])
                ev.append({'e': 'list', 's': s, 'pure': True, 'sorted': True, 'count': e['count'], 'vertices': e['vertices']})
            elif o == 'D': ev.append({'e': 'size', 's': e['simplices'], 'size': x[1], 'flt': int(2 * x[2]) if self.kind == LIST else -1})
            elif o == 'F': ev.append({'e': 'find', 's': x[1], 'found': bool(e['found'])})
        if ans['crash'] or len(ans['ev']) < len(self.ops):
            ev.append({'e': 'crash'})
        return {'kind': self.kind, 'lim': int(2 * self.eps), 'dim': self.dim, 'ev': ev}


def from_spec(kind, h):
    ops, d = [('M', MATS[0])], 0
    for o in h:
        if o == 'M':
            d = 1 - d
            ops.append(('M', MATS[d]))
        elif o[0] == 'X': ops.append(('X', int(o[1])))
        elif o[0] == 'D': ops.append(('D', int(o[1]), 3))
        elif o == 'F': ops += [('F', [0, 1]), ('F', [0, 1, 2]), ('F', [1, 3]), ('F', [2])]
        else: ops.append((o,))
    return Hist(kind, 3, 2, ops + [('Q',), ('N',)])


def random_hist(R, kind):
    dim = R.choice([1, 1, 2, 2, 3, 3, 5, 7])
    deep = dim > 3
    eps = R.choice([1, 1.5, 2, 3, 4, 6])
    ops, n, left = [], 0, 0
    for ph in range(R.randint(1, 3)):
        size = R.randint(1, 9 if deep else 7)
        ops.append(('M', matrix(R, size, R.choice([2, 3, 5]), R.choice([0, 0.1]) if not deep else 0)))
        left = size
        for _ in range(R.randint(2, 16)):
            k = R.random()
            if k < .45 and left:
                ops.append(('I',)); left -= 1; n = size - left
            elif k < .6: ops.append(('Q',))
            elif k < .66: ops.append(('N',))
            elif k < .76:
                if kind != IND: ops.append(('D', R.randint(1, 7 if deep else 4), R.choice([1, 2, eps])))
                else: ops.append(('G',))
            elif k < .86:
                if kind == LIST: ops.append(('F', sorted(R.sample(range(8), R.randint(1, 6 if deep else 4)))))
                else: ops.append(('Q',))
            else: ops.append(('X', R.randint(1, 7 if deep else 4)) if kind != IND else ('Q',))
        ops.append(('Q',))
        if kind != IND and R.random() < .5:
            ops += [('I',)] * left + ([('X', R.randint(2, 7 if deep else 4))] if kind == LIST else [])
            flt = sorted({0, eps - .5, eps} | {min(eps, R.choice([.5, 1, 1.5, 2, 3, 5])) for _ in range(3)})
            ops += [('D', d, f) for f in (flt if kind == LIST else [eps]) for d in ((1, 2, 3, 4) if not deep else range(1, 8))]
        ops.append(('C',))
        if R.random() < .4: ops.append(R.choice([('Q',), ('N',), ('C',), ('D', 1, eps) if kind != IND else ('G',)]))
        # the same matrix or a fresh one follows
    return Hist(kind, eps, dim, ops)


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_complex')
    hs = []
    for kind, ops, ln in ((TREE, '{"I", "Q", "C", "D2"}', 7), (TREE, '{"I", "N", "C", "M", "X2"}', 6),
                          (LIST, '{"I", "Q", "C", "X2"}', 7), (LIST, '{"I", "X1", "X3", "D3", "F"}', 6),
                          (IND, '{"I", "Q", "N", "C"}', 6), (IND, '{"I", "Q", "C", "M"}', 6)):
        if big:
            ln += 1
        r = ck.design('MC_Storage', 'MC_Storage.cfg', 'all histories of length %d over %s on a %s' % (ln, ops, kind),
                      consts={'Kind': '"%s"' % kind, 'Ops': ops, 'Len1': str(ln)})
        pr = r['printed'] if big else R.sample(r['printed'], min(500, len(r['printed'])))
        if len(pr) > 20000:
            pr = R.sample(pr, 20000)
        hs += [from_spec(kind, x['h']) for x in pr]
    flow.judge(ck, 'drv_complex', hs, Hist.line, lambda h, a: h.trace(a), 'StorageTrace', show=Hist.show, what='history of a storage')
    hs = [random_hist(R, R.choice(TYPES)) for _ in range(12000 if big else 1500)]
    flow.judge(ck, 'drv_complex', hs, Hist.line, lambda h, a: h.trace(a), 'StorageTrace', show=Hist.show, what='history of a storage')
