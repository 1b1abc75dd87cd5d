"""C25: the reports of a windowed stream."""
import re
import flow, vlib
from homology import Case
from C16 import random_stream


class Rep:
    def __init__(self, w, eps2, dim, stream, dbg):
        self.w, self.eps2, self.dim, self.stream, self.dbg = w, eps2, dim, stream, dbg

    def line(self):
        return 'REPORT %d %r %d %d %s' % (self.w, self.eps2 / 2, self.dim, self.dbg,
                                          '%d %s' % (len(self.stream), ' '.join('%d %s' % (len(p), ' '.join(map(str, p))) for p in self.stream)))

    def trace(self, ans):
        base = {'stream': self.stream, 'eps4': self.eps2 ** 2, 'dim': self.dim, 'dbg': bool(self.dbg)}
        ev, good = [], False
        if not ans['crash'] and ans['ev'][-1]['e'] == 'reports' and all(e['e'] == 'labels' for e in ans['ev'][:-1]):
            ev = [{'e': 'labels', 'k': e['k'], 'keys': e['keys'], 'labels': e['labels']} for e in ans['ev'][:-1]]
            e, pts, bars, odd = ans['ev'][-1], {}, {}, False
            case = Case('P', [], self.eps2 / 2, self.dim, 'simplexTree')
            for name, text in e['files']:
                m = re.fullmatch(r'SlidingWindow_(\d+)_output\.csv', name)
                b = re.fullmatch(r'PersistencePairs_bettis_output_(\d+)\.csv', name)
                if m: pts[int(m.group(1))] = points(text)
                elif b: bars[int(b.group(1))] = case.parse_bars(text)
                else: odd = True
            if not odd and sorted(pts) == list(range(len(pts))) and sorted(bars) == list(range(len(bars))):
                ev.append({'e': 'reports', 'k': e['k'], 'data': e['data'], 'points': [pts[i] for i in sorted(pts)],
                           'bars': [bars[i] for i in sorted(bars)]})
                if any(not isinstance(v, int) for p in e['data'] for v in p): ev[-1]['data'] = [[99999]]
                good = True
        if not good: ev.append({'e': 'crash'})
        return dict(base, ev=ev)

    def show(self):
        return {'window': self.w, 'epsilon': self.eps2 / 2, 'dimensions': self.dim, 'debug': self.dbg, 'stream': self.stream}


def points(text):
    out = []
    for l in text.split('\n'):
        if l == '': continue
        try:
            v = [float(x) for x in l.split(',')[:-1]]
            out.append([int(x) if x == int(x) else 99999 for x in v] if l.endswith(',') else [99999])
        except ValueError:
            out.append([99999])
    return out


def random_rep(R, w):
    dim = R.choice([1, 1, 2, 3])
    n = R.choice([w, w, w + 1, w + 2, 200 if w == 100 else w]) if w > 50 else R.choice([R.randint(0, w), w, w + 1, 99, 100, 101, 100 + w, 150, 199, 200, 201, 250, 299, 300, 301, R.randint(w, 330), R.randint(w, 330)] + [400, 401, 500, R.randint(400, 520)] * (w < 4))
    s = random_stream(R, n, dim)
    if R.random() < .6 and n > w:
        step = R.choice([1, 1, 2])
        for i in range(min(w, n)): s[i] = [(i * step) % 20] + [0] * (dim - 1)
        s[w] = [20 if dim > 1 else 40] * dim
    if w > 50: return Rep(w, 1, 1, s, 0)
    return Rep(w, R.choice([1, 2, 3, 6]), R.choice([1, 1, 2]), s, R.randrange(2))


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_win')
    ck.design('MC_Reports', 'MC_Reports.cfg', 'every length of stream and size of window: which windows are reported',
              consts={'MaxLen': '60' if big else '14', 'MaxW': '30' if big else '9'})
    for w, m in [(2, 25), (3, 40), (5, 40), (8, 40), (12, 15), (100, 5), (200, 3)] + ([(20, 40)] if big else []):
        items = [random_rep(R, w) for _ in range(m * (10 if big and w < 20 else 1))]
        cfg = open(vlib.SPEC + '/ReportsTrace.cfg').read().replace('W = 3', 'W = %d' % w)
        flow.judge(ck, 'drv_win', items, Rep.line, Rep.trace, 'ReportsTrace', cfg, show=Rep.show, what='reports of a window of %d' % w, timeout=60)
