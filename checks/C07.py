"""C07: the program from its arguments to its files."""
import prog
from homology import *

SHORT = dict(mpi='a', mode='m', dimensions='d', iterations='r', pipeline='p', inputFile='i', outputFile='o', epsilon='e',
             **{'lambda': 'l'}, debug='x', complexType='c', clusters='k', preprocessor='pre', upscale='u', twist='t', collapse='z')
EPS = {'5': 100, '2': 16, '2.5': 25, '3': 36, '3.5': 49, '4': 64, '04': 64, '4.0': 64, '7.5': 225, '10': 400, '1e1': 400, '13': 676, '30': 3600, '0.5': 1, '1.5': 9}
DIM = {'1': 1, '2': 2, '3': 3, '02': 2}
OUT = ['res', 'sub/r', 'my.bars', 'output.csv', 'console']
STALE = 'dimension,birth,death\n0,0,1.000000\n0,0,5.000000\n' * 40


class Run:
    def __init__(self, R, args, data, plain=False):
        """data: file name -> rows with integer or half-integer coordinates; the file may hold them
        moved far from the origin, and results of an earlier run may be there"""
        self.args, self.data = args, data
        off = R.choice([0] * 5 + [1000, -300000, 2 ** 27, 3 * 10 ** 9]) if not plain else 0
        self.files = {k: prog.csv(R, [[x + off for x in r] for r in v], plain or off) for k, v in data.items()}
        self.stale = {}
        if R.random() < .15:
            self.stale = {b + s: STALE for b in OUT[:3] for s in ('.csv', '_stats.csv')}
            self.files.update(self.stale)
        self.want = [b + s for b in OUT for s in ('.csv', '_stats.csv')]

    def show(self):
        return {'arguments': ' '.join(self.args), 'files': self.files}

    def trace(self, a):
        out = []
        cs = Case('P', [], 0, 1, TREE)
        for b in OUT:
            d, s = (None if a['files'].get(k) == self.stale.get(k) else a['files'].get(k, '') for k in (b + '.csv', b + '_stats.csv'))
            if d is None and s is None:
                continue
            d, s = (d or '').split('\n', 1), (s or '').split('\n', 1)
            out.append({'base': b, 'both': len(d) == 2 and len(s) == 2,
                        'heads': d[0] == 'dimension,birth,death' and s[0] == 'PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount',
                        'rows': prog.rows(s[-1]), 'b': cs.parse_bars(d[-1])})
        ev = [{'e': 'run', 'exit': a['exit'], 'out': out}] if isinstance(a['exit'], int) else [{'e': 'crash'}]
        return {'args': self.args, 'data': {k: [[int(2 * x) for x in r] for r in v] for k, v in self.data.items()} or {'': []},
                'eps': EPS, 'dim': DIM, 'ev': ev}


def spell(R, o):
    return '-' + SHORT[o] if R.random() < .5 else '--' + o


def chain(R, kind):
    last = ['fast', 'fastPersistence'] + ([] if kind == IND else ['persistence'])
    c = ['distMatrix', 'neighGraph', 'rips', R.choice(last)]
    if R.random() < .15: c = c[:R.randint(1, 3)]
    for _ in range(R.choice([0, 0, 1, 2])):
        c.insert(R.randint(0, len(c)), R.choice(['upscale', 'nosuch', '', 'Rips', 'distmatrix']))
    if R.random() < .15: c.insert(1, 'distMatrix')
    return '.'.join(c)


def random_run(R):
    p = any_cloud(R, 9)
    k = R.random()
    if k < .25: p = [q for q in p[:6] for _ in range(R.choice([1, 1, 2, 3]))][:9]      # repeated rows
    kind = R.choice(TYPES)
    opts = [('inputFile', 'in.csv')]
    if R.random() < .9: opts.append(('outputFile', R.choice(OUT[:4]) if R.random() < .93 else 'console'))
    if R.random() < .95: opts.append(('epsilon', R.choice(list(EPS))))
    if R.random() < .8: opts.append(('dimensions', R.choice(list(DIM))))
    m = R.random()
    if m < .3: opts.append(('mode', R.choice(['standard', 'fast'])))
    elif m < .5: opts += [('pipeline', chain(R, kind)), ('mode', R.choice(['standard', 'fast', 'reduced', 'stream', 'sw', 'other']))]
    elif m < .6: opts.append(('pipeline', chain(R, kind)))
    elif m < .63: opts.append(('mode', R.choice(['other', ''])))
    if R.random() < .6: opts.append(('complexType', kind))
    elif any(o == 'pipeline' for o, _ in opts): opts.append(('complexType', kind))
    if R.random() < .25: opts.append(('preprocessor', R.choice(['', 'none', 'nosuch'])))
    if R.random() < .2: opts.append(('debug', R.choice(['0', '1', 'true', 'false'])))
    if R.random() < .2: opts.append(('twist', R.choice(['true', 'false'])))
    if R.random() < .1: opts.append(('collapse', 'false'))
    if R.random() < .1: opts.append(('upscale', R.choice(['false', 'false', 'true'])))
    if R.random() < .1: opts.append(('clusters', R.choice(['1', '3', '0'])))
    if R.random() < .1: opts.append(('iterations', R.choice(['1', '10'])))
    if R.random() < .1: opts.append(('lambda', '0.5'))
    if R.random() < .1: opts.append(('mpi', '0'))
    data = {'in.csv': p}
    if R.random() < .1:
        data['two.csv'] = any_cloud(R, 5)
        opts.append(('inputFile', R.choice(['two.csv', 'in.csv'])))
    if R.random() < .1: opts.append(('epsilon', R.choice(list(EPS))))
    if R.random() < .1: opts.append(('outputFile', R.choice(OUT[:4])))
    if R.random() < .03: data['in.csv'] = []
    if R.random() < .03: del data['in.csv']
    R.shuffle(opts)
    args = [x for o, v in opts for x in (spell(R, o), v)]
    if R.random() < .05:
        args += R.choice([['stray'], ['-e'], ['--epsilon']])
    return Run(R, args, data)


def from_spec(R, x):
    args = list(x['args']) + R.choice([['-i', 'in.csv'], ['--inputFile', 'in.csv']])
    if R.random() < .5: args = args[-2:] + args[:-2]
    return Run(R, args, {'in.csv': [[v / 2 for v in r] for r in x['X']]}, True)


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build(main=True)
    r = ck.design('MC_Program', 'MC_Program.cfg', 'the program under every order and spelling of at most %d options' % (3 if big else 2),
                  consts={'MaxOpts': '3' if big else '2'})
    pr = r['printed']
    pr = R.sample(pr, min(len(pr), 7200 if big else 450))
    items = [from_spec(R, x) for x in pr] + [random_run(R) for _ in range(9000 if big else 900)]
    prog.judge(ck, items, 'ProgramTrace', 'a run of the program')
