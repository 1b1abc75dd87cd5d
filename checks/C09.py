"""C09: the readers."""
import flow

COMMA, BLANK, CR, LF = 10001, 10002, 10003, 10004
SEP = {COMMA: ',', BLANK: ' ', CR: '\r', LF: '\n'}


class Ids:
    """identifies numbers by value"""

    def __init__(self):
        self.ids = {}

    def of(self, x):
        x = float(x)
        return self.ids.setdefault(x, len(self.ids))

    def known(self, x):
        return self.ids.get(float(x), 9999) if not isinstance(x, str) else 9999


def number(R):
    k = R.randrange(11)
    if k == 0: return str(R.randint(0, 9))
    if k == 1: return str(R.randint(-200, 200))
    if k == 2: return '%.*f' % (R.randint(1, 6), R.uniform(-50, 50))
    if k == 3: return '%.3fe%d' % (R.uniform(-9, 9), R.randint(-5, 5))
    if k == 4: return '%dE+0%d' % (R.randint(1, 9), R.randint(0, 4))
    if k == 5: return '.%d' % R.randint(1, 99)
    if k == 6: return '%.15g' % R.uniform(-1e6, 1e6)
    if k == 7: return R.choice(['+', '-']) + '%.*f' % (R.randint(0, 3), R.uniform(0, 50))
    if k == 8: return '%.17g' % (R.uniform(-1, 1) * 10.0 ** R.randint(-300, 300))
    if k == 9: return str(R.randint(-2 ** 53, 2 ** 53))
    return '%d.' % R.randint(0, 30)


class File:
    def __init__(self, toks, texts):
        """toks: token codes; texts: text of the numbers, by number"""
        self.ids = Ids()
        self.toks = [t if t > 10000 else self.ids.of(texts[t]) for t in toks]
        self.raw = ''.join(SEP[t] if t > 10000 else texts[t] for t in toks)

    def line(self):
        return 'FILE %s CSV STREAM REUSE MISSING' % (self.raw.encode().hex() or '-')

    def show(self):
        return {'file': self.raw[:300]}

    def trace(self, ans):
        rows = lambda q: [[self.ids.known(x) for x in r] for r in q]
        ev = [{'e': 'file', 'toks': self.toks}]
        for e in ans['ev'][1:]:
            if e['e'] == 'csv': ev.append({'e': 'csv', 'rows': rows(e['rows'])})
            elif e['e'] == 'stream': ev.append({'e': 'stream', 'init': e['init'], 'rows': rows(e['rows']), 'ended': e['ended']})
            elif e['e'] == 'missing': ev.append(e)
            else: ev.append({'e': 'crash'})
        if ans['crash'] or len(ev) != 8:
            ev.append({'e': 'crash'})
        return {'ev': ev}


class MatFile:
    def __init__(self, R, r, k):
        self.ids = Ids()
        self.r, self.k = r, k
        t = [number(R) for _ in range(r * k)]
        self.vals = [self.ids.of(x) for x in t]
        pad = lambda s: R.choice(['', '', ' ']) + s + R.choice(['', '', '  '])
        nl = R.choice(['\n', '\n', '\r\n'])
        self.raw = nl.join(pad(x) for x in [str(r), str(k)] + t) + R.choice([nl, nl, '', nl + nl])

    def line(self):
        return 'FILE %s MAT' % self.raw.encode().hex()

    def show(self):
        return {'matrix file': self.raw[:300]}

    def trace(self, ans):
        ev = [{'e': 'matfile', 'r': self.r, 'k': self.k, 'vals': self.vals}]
        for e in ans['ev'][1:]:
            ev.append({'e': 'mat', 'rows': [[self.ids.known(x) for x in q] for q in e['rows']]} if e['e'] == 'mat' else {'e': 'crash'})
        if ans['crash'] or len(ev) < 2:
            ev.append({'e': 'crash'})
        return {'ev': ev}


def random_file(R):
    toks, texts = [], {}
    blank = lambda p: toks.extend([BLANK] * R.choice([1, 1, 3]) if R.random() < p else [])
    p = R.choice([0, 0, .2])
    crlf = R.random() < .3
    long_ = R.random() < .15
    n = R.randint(0, 8) if R.random() < .96 else R.randint(60, 300)
    long_ = long_ and n < 10
    for i in range(n):
        k = R.choice([0, 1, 1, 2, 3, 5]) if not long_ else R.choice([1, 90, 170, 250])
        for j in range(k):
            blank(p)
            i_ = len(texts)
            texts[i_] = number(R) if not long_ or R.random() < .5 else R.choice(['1', '12.25', '-3.125'])
            toks.append(i_)
            blank(p)
            if j < k - 1 or R.random() < .3:
                toks.append(COMMA)
        blank(p)
        if crlf: toks.append(CR)
        if i < n - 1 or R.random() < .7:
            toks.append(LF)
        while R.random() < .12:
            toks.append(LF)
    return File(toks, texts)


def edge_file(R, total):
    """a line of exactly `total' characters, around the size of the stream buffer"""
    texts, toks, size = {}, [], 0
    p = R.choice([0, 0, .1])
    crlf = R.random() < .3
    while size < total - 12:
        if R.random() < p:
            toks.append(BLANK)
            size += 1
        t = R.choice(['1.5', '22', '-7.25', '8'])
        texts[len(texts)] = t
        toks += [len(texts) - 1, COMMA]
        size += len(t) + 1
    end = R.random() < .3
    t = '9' * (total - size - crlf - end)
    texts[len(texts)] = t
    toks += [len(texts) - 1] + [COMMA] * end + [CR] * crlf
    if R.random() < .8: toks.append(LF)
    if R.random() < .7:
        texts[len(texts)] = '4.5'
        toks += ([LF] if toks[-1] != LF else []) + [len(texts) - 1, LF]
    return File(toks, texts)


def tall_file(R, n):
    texts, toks = {}, []
    for i in range(n):
        for j in range(R.choice([1, 1, 2])):
            texts[len(texts)] = number(R)
            toks += [COMMA] * (j > 0) + [len(texts) - 1]
        toks.append(LF)
    return File(toks, texts)


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_io')
    r = ck.design('MC_Io', 'MC_Io.cfg', 'all well-formed files of at most %d tokens: stepwise reader = definition, nothing lost, round trip' % (7 if big else 6),
                  consts={'MaxLen': '7' if big else '6'})
    pr = [x['t'] for x in r['printed']]
    pr = R.sample(pr, min(len(pr), 20000 if big else 2500))
    files = [File(t, {1: R.choice(['1', '-2.5', '7e1', '.25']), 2: R.choice(['3', '10', '0', '0.125'])}) for t in pr]
    go = lambda fs: flow.judge(ck, 'drv_io', fs, lambda f: f.line(), lambda f, a: f.trace(a), 'IoTrace', show=lambda f: f.show(), what='reading a file')
    go(files)
    fs = [random_file(R) for _ in range(8000 if big else 900)]
    fs += [edge_file(R, n) for n in list(range(985, 1012)) + list(range(1990, 2006)) + [4090, 4096, 5000, 8192, 9000] for _ in range(8 if big else 2)]
    fs += [MatFile(R, R.randint(0, 6), R.randint(0, 6)) for _ in range(2000 if big else 300)]
    go(fs)
    # wide and tall ones
    fs = [MatFile(R, *x) for _ in range(6 if big else 1) for x in [(3, 257), (2, 300), (300, 2), (1, 700), (700, 1), (40, 41), (R.randint(60, 400), R.randint(1, 3)), (R.randint(1, 3), R.randint(60, 400))]]
    fs += [edge_file(R, n) for n in [12000, 16390] for _ in range(4 if big else 1)] + [tall_file(R, n) for n in [300, 900] for _ in range(4 if big else 1)]
    go(fs)
