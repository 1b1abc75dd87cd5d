"""C10: the writers."""
import flow
from C09 import Ids, COMMA, BLANK, CR, LF

BAR = 'dimension,birth,death\n'
STATS = 'PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n'


def tokens(text, ids):
    """lexes a numeric file"""
    out, cur = [], ''
    def flush():
        nonlocal cur
        if cur:
            try:
                out.append(ids.known(float(cur)))
            except ValueError:
                out.append(9998)
            cur = ''
    for ch in text:
        if ch in ', \r\n':
            flush()
            out.append({',': COMMA, ' ': BLANK, '\r': CR, '\n': LF}[ch])
        else:
            cur += ch
    flush()
    return out


class Writes:
    """a history of writes to a few names, with the file looked at after some of them"""

    def __init__(self, R, n):
        self.ids, self.ops = Ids(), []
        for _ in range(n):
            self.step(R)

    def value(self, R):
        k = R.randrange(6)
        if k == 0: v = float(R.randint(-9, 9))
        elif k == 1: v = float('%.6f' % R.uniform(-1, 1))
        elif k == 2: v = float('%.6f' % R.uniform(-99999, 99999))
        elif k == 3: v = float(R.randint(-10 ** 9, 10 ** 9)) + R.choice([0, .5, .25])
        elif k == 4: v = float('%.6f' % (R.randint(1, 99) * 1e-6))
        else: v = float('%.6f' % R.uniform(0, 20))
        return v + 0.0 if v else 0.0

    def table(self, R, rect):
        r, k = R.choice([0, 1, 2, 3, 7] * 12 + [60, 130]) if R.random() < .998 else R.choice([300, 700, 1100]), R.randint(1, 5)
        if r < 8 and R.random() < .04: k = R.randint(6, 50)
        return [[self.value(R) for _ in range(k if rect else R.randint(1, k))] for _ in range(r)]

    def step(self, R):
        kind = R.choice(['csv', 'csvh', 'bar', 'mat', 'tcsv', 'tcsvh', 'tbar', 'stats'])
        name = R.choice(['a', 'b', 'out.csv'])
        text = ''.join(R.choice(['0,0,1.500000\n', '1,2.0,3.5\n', 'x,y\n', 'DistMatrix,0.1,12,\n', ' ', '\n']) for _ in range(R.randint(0, 6) if R.random() < .95 else R.randint(100, 2000) if R.random() < .9 else R.choice([9000, 30000, 120000])))
        head = R.choice(['a,b\n', 'dimension,birth,death\n', '', '# h\n'])
        mat = self.table(R, kind == 'mat')
        self.ops.append((kind, name, text, head, mat))

    def line(self):
        o = []
        h = lambda s: s.encode().hex() or '-'
        m = lambda q: '%d %s' % (len(q), ' '.join('%d %s' % (len(r), ' '.join(map(repr, r))) for r in q))
        for kind, name, text, head, mat in self.ops:
            o.append('W %s %s ' % (kind, name) + {'csv': m(mat), 'csvh': h(head) + ' ' + m(mat), 'bar': m(mat), 'mat': m(mat),
                     'tcsv': h(text), 'tcsvh': h(head) + ' ' + h(text), 'tbar': h(text), 'stats': h(text)}[kind])
            f = self.file(kind, name)
            o.append('CONTENT ' + f)
            if kind in ('csv', 'mat'):
                o.append(('RCSV ' if kind == 'csv' else 'RMAT ') + f)
        # every file again at the end
        self.final = sorted({self.file(k, n) for k, n, _, _, _ in self.ops})
        return ' '.join(o + ['CONTENT ' + f for f in self.final])

    def file(self, kind, name):
        return name + {'mat': '.mat', 'stats': '_stats.csv'}.get(kind, '.csv')

    def show(self):
        return {'writes': [(k, n, t if k[0] in 't' or k == 'stats' else m) for k, n, t, h, m in self.ops]}

    def content(self, f, last, e):
        kind, name, text, head, mat = last
        if not e['there']:
            return {'e': 'crash'}
        t = e['text']
        if kind[0] == 't' or kind == 'stats':
            return {'e': 'content', 'file': f, 'text': t}
        if kind == 'mat':
            q = t.split()
            try:
                return {'e': 'content', 'file': f, 'r': int(q[0]), 'k': int(q[1]), 'vals': [self.ids.known(float(x)) for x in q[2:]]}
            except (ValueError, IndexError):
                return {'e': 'crash'}
        hd = {'csv': '', 'csvh': head, 'bar': BAR}[kind]
        ok = t.startswith(hd)
        return {'e': 'content', 'file': f, 'header': hd if ok else t[:len(hd)], 'toks': tokens(t[len(hd):] if ok else t, self.ids)}

    def trace(self, ans):
        ev, it, last = [], iter(ans['ev']), {}
        for _, _, _, _, m in self.ops:
            for r in m:
                for x in r: self.ids.of(x)
        idr = lambda q: [[self.ids.known(x) for x in r] for r in q]
        for op in self.ops:
            kind, name, text, head, mat = op
            f = self.file(kind, name)
            e = next(it, None)
            if not e or e['e'] != 'write': break
            w = {'e': 'write', 'file': f, 'ret': e['ret'], 'kind': 'text' if kind[0] == 't' or kind == 'stats' else ('mat' if kind == 'mat' else 'csv')}
            if w['kind'] == 'text':
                w.update(text=text, header={'tcsv': '', 'tcsvh': head, 'tbar': BAR, 'stats': STATS}[kind])
            else:
                w.update(rows=idr(mat), header={'csv': '', 'csvh': head, 'bar': BAR, 'mat': ''}[kind])
            ev.append(w)
            last[f] = op
            e = next(it, None)
            if not e: break
            ev.append(self.content(f, op, e))
            if kind in ('csv', 'mat'):
                e = next(it, None)
                if not e: break
                ev.append({'e': 'readback', 'file': f, 'rows': idr(e['rows'])})
        for f in self.final:
            e = next(it, None)
            if e: ev.append(self.content(f, last[f], e))
            else:
                ev.append({'e': 'crash'}); break
        if ans['crash']:
            ev.append({'e': 'crash'})
        return {'ev': ev}


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_io')
    ck.design('MC_Io', 'MC_Io.cfg', 'all tables read from files of at most 6 tokens: writing and reading back returns the table')
    hs = [Writes(R, R.randint(1, 6)) for _ in range(8000 if big else 1200)]
    flow.judge(ck, 'drv_io', hs, lambda f: f.line(), lambda f, a: f.trace(a), 'IoTrace', show=lambda f: f.show(), what='writing')
