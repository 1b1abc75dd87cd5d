"""C21: the stage machine - factories, configuration, the packet and its statistics."""
import re
import flow
from homology import *

OPTS = ['epsilon', 'dimensions', 'twist', 'collapse', 'clusters', 'iterations', 'lambda']
NAMES = ['distMatrix', 'neighGraph', 'rips', 'upscale', 'boundary', 'persistence', 'slidingwindow', 'sliding', 'fastPersistence',
         'fast', 'naivewindow', 'naive']
PRE = ['none', 'kmeansplusplus', 'kmeans++', 'kmeans', 'streamingKmeans', 'streamingkmeans', 'streamKM', 'denStream', 'denstream', 'DenStream']
ODD = ['nosuch', 'DistMatrix', 'distmatrix', 'distMatrix2', 'Rips', 'ripsPipe', 'persistencePairs', 'fastpersistence', 'slidingWindow',
       'naiveWindow', 'k-means', 'KMEANS', 'denStream2', 'None', 'simplextree', 'simplexTree2', 'ArrayList', 'indsimplexTree', 'neighgraph', 'x']
STREAMKM = PRE[4:7]        # its run is a known finding: only refused or never configured here
NEED = {n: ['epsilon', 'dimensions', 'twist'] if 'ersist' in n or n == 'fast' else ['epsilon'] if n == 'distMatrix' else ['epsilon', 'dimensions']
        for n in NAMES}
REQ = {'distMatrix': 1, 'neighGraph': 2, 'rips': 2, 'upscale': 0, 'persistence': 3, 'fastPersistence': 3, 'fast': 3}


class Seq:
    def __init__(self, kind, pts, eps, dims, ops, dbg):
        self.case = Case('P', pts, eps, dims, kind)
        self.ops, self.dbg = ops, dbg

    def line(self):
        c = self.case
        rows = c.rowsline()
        ops = ' '.join(o[0] if len(o) == 1 else o[0] + ':' + (o[1] if isinstance(o[1], str) else ','.join(o[1])) for o in self.ops)
        return '%s %d %r %d %d %s %d %s' % (c.typ, self.dbg, c.limit(), c.dims, c.n, rows, len(self.ops), ops)

    def show(self):
        return {'storage': self.case.typ, 'debug': self.dbg, 'eps': self.case.eps, 'dims': self.case.dims, 'points': self.case.data, 'calls': self.ops}

    def trace(self, ans):
        c, ev = self.case, []
        got = ans['ev']
        for o, e in zip(self.ops, got):
            e = dict(e)
            if e['e'] in ('config', 'pconfig'):
                e['opts'] = list(o[1])
            elif e['e'] == 'run':
                e = {'e': 'run', 'data': e['data'], 'full': e['full'], 'dist': [[c.project(x) for x in r] for r in e['dist']],
                     'w': [c.project(x) for x in e['w']], 's': [[s, c.project(w)] for s, w in e['s']], 'count': e['count'],
                     'vertices': e['vertices'], 'b': c.parse_bars(e['text']), 't': [[int(t[0]), c.project(t[1]), c.project(t[2])] for t in e['t']],
                     'rows': rows(e['stats'], True)}
            elif e['e'] == 'prun':
                e = {'e': 'prun', 'data': e['data'], 'full': e['full'], 'points': e['points'], 'labels': e['labels'], 'count': e['count'],
                     'rows': rows(e['stats'], False)}
            ev.append(e)
        if ans['crash'] or len(got) != len(self.ops) + 1 or got[-1]['e'] != 'end':
            ev.append({'e': 'crash'})
        return {'kind': c.typ, 'n': c.n, 'D': c.weights(), 'lim': c.lim(), 'dims': c.dims,
                'distinct': len({tuple(x) for x in c.data}), 'ev': ev}


def rows(text, stage):
    out = []
    for l in text.split('\n')[:-1]:
        m = re.fullmatch(r'([^,]*),\d+\.\d+,\d+\.\d+,(?:B|KB|MB|GB),(\d+),(\d+)' if stage else r'([^,]*),\d+\.\d+', l)
        out.append(([m.group(1)] + [int(x) for x in m.groups()[1:]]) if m else ['bad row'])
    if text and not text.endswith('\n'):
        out.append(['bad row'])
    return out


def from_tlc(R, x, dbg, big):
    ops = []
    for o in x['h']:
        ops.append({'build': lambda: ('B', o[1]), 'config': lambda: ('C', sorted(o[1])), 'run': lambda: ('R',)}[o[0]]())
    if not big and R.random() < .5:
        return Seq(x['kind'], [[0, 0], [0, 3], [3, 3], [3, 0]], 3.5, 2, ops, dbg)
    p = any_cloud(R, 5)
    return Seq(x['kind'], p, pick_eps(R, p), R.choice([1, 2, 2, 3]), ops, dbg)


def random_seq(R):
    """a regular chain with disturbances anywhere"""
    kind, ops = R.choice(TYPES), []
    last = [['fast'], ['fastPersistence']] if kind == IND else [['fast'], ['persistence'], ['persistence', 'fast']]
    chain = ['distMatrix', 'neighGraph', 'rips'] + R.choice(last)
    if R.random() < .3:
        chain.insert(R.randint(1, len(chain)), 'distMatrix')

    def noise():
        while R.random() < .35:
            k = R.randrange(4)
            if k == 0:
                ops.append(('B', R.choice(ODD)))
                if R.random() < .5: ops.append(('C', OPTS))
                ops.append(('R',))
            elif k == 1:
                n = R.choice([x for x in NAMES if x not in ('rips', 'upscale')])
                ops.append(('B', n))
                for _ in range(R.randint(0, 2)):
                    drop = R.choice(NEED[n])
                    keep = R.choice([.8, 1])
                    ops.append(('C', [x for x in OPTS if x != drop and R.random() < keep]))
                    if R.random() < .3: ops.append(('R',))
                ops.append(('R',))
            elif k == 2:
                ops.append(('B', 'upscale'))
                ops.append(('C', [x for x in OPTS if R.random() < .5]))
                ops.append(('R',))
            else:
                ops.append(('S', R.choice(TYPES + ODD)))
    for s in chain:
        noise()
        ops.append(('B', s))
        if R.random() < .3:
            req = ['epsilon', 'dimensions', 'twist'][:REQ[s]] if s != 'rips' else []
            if req:
                drop = R.choice(req)
                keep = R.choice([.9, 1])
                ops.append(('C', [o for o in OPTS if o != drop and R.random() < keep]))
                if R.random() < .5: ops.append(('R',))
        need = {'rips': ['dimensions']}.get(s, ['epsilon', 'dimensions', 'twist'][:REQ[s]])
        ops.append(('C', need if R.random() < .3 else R.sample(OPTS, len(OPTS))))
        ops.append(('R',))
        if s in ('distMatrix',) and R.random() < .2:
            ops.append(('R',))
    noise()
    p = any_cloud(R, 7)
    return Seq(kind, p, pick_eps(R, p), R.choice([1, 2, 2, 3]), ops, R.randrange(2))


def config_seq(R):
    """every component with subsets of the options; nothing runs unless it may"""
    ops = []
    for _ in range(R.randint(2, 8)):
        if R.random() < .5:
            ops += [('B', R.choice(NAMES + ODD))] + [('C', [o for o in OPTS if R.random() < .75]) for _ in range(R.randint(1, 3))]
        else:
            ops += [('p', R.choice(PRE + ODD))] + [('c', [o for o in OPTS if R.random() < .75]) for _ in range(R.randint(1, 3))]
    p = any_cloud(R, 4)
    return Seq(R.choice(TYPES), p, pick_eps(R, p), R.choice([1, 2]), ops, R.randrange(2))


def pre_seq(R):
    ops = []
    for _ in range(R.randint(0, 2)):
        n = R.choice(PRE + ODD)
        ops.append(('p', n))
        if R.random() < .7:
            drop = R.choice(['clusters', 'iterations']), R.choice(['epsilon', 'lambda'])
            ops.append(('c', [o for o in OPTS if o not in drop]))
        ops.append(('r',))
    n = R.choice(['kmeans', 'kmeans++', 'kmeansplusplus', 'none', 'none'])
    ops += [('p', n), ('c', OPTS), ('r',)]
    p = any_cloud(R, 7)
    if R.random() < .3: p = [list(p[0]) for _ in p]
    return Seq(R.choice(TYPES), p, pick_eps(R, p), 2, ops, R.randrange(2))


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_stage')
    pr = []
    for a, b in ([(1, 1), (0, 2)] if big else [(1, 0), (0, 1)]):
        pr += ck.design('MC_Stages', 'MC_Stages.cfg', 'all stage sequences with %d ineffective steps and %d refusals' % (a, b),
                        consts={'Noise': str(a), 'Again': str(b)})['printed']
    uniq = {str(x): x for x in pr}
    pr = [uniq[k] for k in sorted(uniq)]
    pr = R.sample(pr, min(len(pr), 12000 if big else 1300))
    items = [from_tlc(R, x, i % 2, big) for i, x in enumerate(pr)]
    # every name with every set of options
    if big:
        sets = [[o for k, o in enumerate(OPTS) if m >> k & 1] for m in range(128)]
    else:
        sets = [[o for o in OPTS if o not in d] for d in [(), *[(o,) for o in OPTS], ('epsilon', 'dimensions'), ('clusters', 'iterations'), tuple(OPTS)]]
    sq = [[0, 0], [2, 0], [0, 2]]
    for t in TYPES:
        for k, n in [('B', n) for n in NAMES + ODD] + [('p', n) for n in PRE + ODD]:
            items.append(Seq(t, sq, 2.5, 2, [x for s in sets for x in ((k, n), ('C' if k == 'B' else 'c', s))], 0))
        items.append(Seq(t, sq, 2.5, 2, [('S', n) for n in TYPES + ODD + ['simplexTree']], 0))
    items += [random_seq(R) for _ in range(5000 if big else 500)]
    for x in items: x.case.vary(R, .1)
    items += [config_seq(R) for _ in range(2000 if big else 250)]
    items += [pre_seq(R) for _ in range(2000 if big else 250)]
    flow.judge(ck, 'drv_stage', items, Seq.line, Seq.trace, 'StagesTrace', show=Seq.show, keep=False, what='sequence of stages')
    # known finding: the streaming k-means component ends the process; anything else it does is judged
    k = [Seq(TREE, line_pts(R, n, 9), 4.5, 1, [('p', s), ('c', OPTS), ('r',)], 0) for s in STREAMKM for n in (3, 40)]
    alive = [x for x, a in zip(k, ck.drive('drv_stage', [x.line() for x in k])) if not a['crash']]
    ck.notes.append('streamingKmeans: %d of %d configured runs end the process (known finding)' % (len(k) - len(alive), len(k)))
    flow.judge(ck, 'drv_stage', alive, Seq.line, Seq.trace, 'StagesTrace', show=Seq.show, keep=True, what='streaming k-means')
