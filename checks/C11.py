"""C11: options and modes."""
import flow

SHORT = dict(mpi='a', mode='m', dimensions='d', iterations='r', pipeline='p', inputFile='i', outputFile='o', epsilon='e',
             **{'lambda': 'l'}, debug='x', complexType='c', clusters='k', preprocessor='pre', upscale='u', twist='t', collapse='z')
MODES = ['standard', 'reduced', 'upscaleBound', 'stream', 'sw', 'slidingwindow', 'fast', 'naive', 'naivewindow', 'upscale', 'mpi', '', 'Standard']
hx = lambda s: s.encode('latin-1').hex() or '-'


class Cli:
    def __init__(self, args, give=None, more=()):
        """more: argument lists parsed later in the same process, None to print the options"""
        self.args, self.give, self.more = args, give, list(more)

    def line(self):
        if self.give is not None:
            return 'GIVE %d %s PLAN PLAN' % (len(self.give), ' '.join(hx(k) + ' ' + hx(v) for k, v in self.give.items()))
        return ' '.join('PRINT' if a is None else 'PARSE %d %s PLAN PLAN' % (len(a), ' '.join(map(hx, a))) for a in [self.args] + self.more)

    def trace(self, ans):
        ev = []
        lists = [a for a in [self.args] + self.more if a is not None]
        for e in ans['ev']:
            m = {o: e['m'][o] for o in SHORT if o in e.get('m', {})}
            if e['e'] == 'parsed': ev.append({'e': 'parsed', 'args': lists.pop(0) if lists else [], 'm': m, 'same': e['same']})
            elif e['e'] in ('given', 'planned', 'printed'): ev.append({'e': e['e'], 'm': m})
            else: ev.append({'e': 'crash'})
        if ans['crash'] or len(ev) != (3 if self.give is not None else 0) + sum(1 if a is None else 3 for a in [self.args] * (self.give is None) + self.more):
            ev.append({'e': 'crash'})
        return {'ev': ev}

    def show(self):
        return [self.args] + self.more if self.give is None else self.give


def value(R, o):
    if o == 'mode': return R.choice(MODES)
    if o == 'mpi': return R.choice(['0', '1', '1', '2', 'true'])
    if o == 'preprocessor': return R.choice(['', 'kmeans++', 'denstream', 'none', 'x'])
    if o == 'pipeline': return R.choice(['', '', 'distMatrix', 'distMatrix.neighGraph', 'slidingwindow'])
    if o == 'complexType': return R.choice(['simplexTree', 'simplexArrayList', 'indSimplexTree', '?'])
    if o in ('upscale', 'twist', 'collapse'): return R.choice(['true', 'false', '1', ''])
    return R.choice(['0', '3', '-1', '7.5', 'a.csv', '/tmp/x', '', ' ', 'a b', '-e', '--', '1e3'])


def random_args(R):
    a = []
    pool = list(SHORT) if R.random() < .5 else ['mode', 'mpi', 'pipeline', 'preprocessor', 'complexType', 'upscale', 'epsilon']
    for _ in range(R.choice([0, 1, 2, 3, 4, 6, 10, 16])):
        k = R.random()
        o = R.choice(pool)
        if k < .86:
            n = R.choice([o, SHORT[o]])
            d = ('--' if n == o else '-') if R.random() < .8 else R.choice(['-', '--'])
            a += [d + n, value(R, o)]
        elif k < .93: a += [R.choice(['data.csv', 'epsilon', 'e', '', '5', '-', '--', '---e', '-foo', '--Epsilon', '-E']), value(R, o)]
        else: a += [R.choice(['data.csv', '-' + SHORT[o], '--' + o, '7'])]
    return a


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_config')
    r = ck.design('MC_Config', 'MC_Config.cfg', 'all argument lists of at most %d words: pairs, defaults, precedence, order' % (5 if big else 4),
                  consts={'N': '5' if big else '4',
                          'Words': '{"-e", "--epsilon", "-m", "reduced", "sw", "7", "x", "-", "-a", "1"}' if big else
                                   '{"-e", "--epsilon", "-m", "reduced", "sw", "7", "-a", "1", "-p"}'})
    pr = r['printed']
    items = [Cli(x['args']) for x in R.sample(pr, min(len(pr), 20000 if big else 1500))]
    # every option in every spelling, alone
    items += [Cli([d + n, 'v%d' % i]) for i, o in enumerate(SHORT) for n in (o, SHORT[o]) for d in ('-', '--')]
    # the whole mode table, against every subset of explicit choices
    for m in MODES:
        for mpi in ('0', '1'):
            for p in ('', 'rips'):
                for pre in ('', 'none'):
                    for u in ('false', 'true'):
                        for ct in ('simplexTree', 'simplexArrayList'):
                            items.append(Cli(['-m', m, '-a', mpi, '-p', p, '-pre', pre, '-u', u, '-c', ct]))
    items += [Cli(random_args(R)) for _ in range(12000 if big else 2000)]
    for _ in range(3000 if big else 400):
        items.append(Cli(random_args(R), more=[None if R.random() < .3 else random_args(R) for _ in range(R.randint(1, 4))]))
    items += [Cli(None, {o: value(R, o) for o in SHORT}) for _ in range(2000 if big else 300)]
    flow.judge(ck, 'drv_config', items, Cli.line, Cli.trace, 'ConfigTrace', show=Cli.show, what='option handling')
