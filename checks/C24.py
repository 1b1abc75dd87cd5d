"""C24: the files and the log a run leaves."""
import re
import flow
from homology import *
from C21 import Seq, OPTS, NAMES, ODD, PRE, rows, from_tlc, random_seq, pre_seq


def near(case, x):
    """a number printed with six digits -> integer of the specification"""
    try: x = float(x)
    except ValueError: return -999
    return case.project(x, 2e-5 * max(1, abs(x)))


def micro(x):
    try: return list(divmod(round(float(x) * 10 ** 6), 10 ** 6))
    except (ValueError, OverflowError): return [-1]


def lines(text):
    return text.split('\n')[:-1] if text.endswith('\n') else ['broken'] if text else []


def matrix_file(text, f, sep_at_end=True):
    out = []
    for l in lines(text):
        if sep_at_end and not l.endswith(','): return [['broken']]
        out.append([f(x) for x in l.split(',')[:-1]])
    return out


def content(c, name, text):
    if name == 'DistMatrix_output.csv': return matrix_file(text, lambda x: near(c, x))
    if name in ('neighGraph_output.csv', 'ripsPipe_output.csv'):
        out = []
        for l in lines(text):
            if l or name[0] == 'r':
                f = l.split(',')
                out.append([[int(x) for x in f[:-1]], near(c, f[-1])])
        return out
    if '_bettis_' in name: return c.parse_bars(text)
    if name.endswith('_centroid_output.csv') or name == 'Upscale_output.csv': return matrix_file(text, micro)
    if name.endswith('_label_output.csv'): return [int(x) for x in lines(text)]
    return 'other'


class FSeq(Seq):
    def line(self):
        w = Seq.line(self).split(' ')
        if not self.dbg and len(self.ops) % 2: w[1] = 'false'
        return 'files ' + ' '.join(w)

    def trace(self, ans):
        c, ev = self.case, []
        for o, e in zip(self.ops, ans['ev']):
            e = dict(e)
            if e['e'] in ('config', 'pconfig'): e = {'e': e['e'], 'opts': list(o[1])}
            elif e['e'] in ('run', 'prun'):
                e = {'e': e['e'], 'files': [[n, content(c, n, t)] for n, t in e['files']],
                     'log': [m for m in re.findall(r'(?m)^\[([^\]]*)\]:\t\tPipeline \1 executed in \d+\.\d+ seconds', e['log'])],
                     'debuglines': '[DEBUG]' in e['log'], 'out': [[micro(x) for x in r] for r in e['out']], 'lab': e['lab']}
            ev.append(e)
        if ans['crash'] or len(ans['ev']) != len(self.ops) + 1 or ans['ev'][-1]['e'] != 'end': ev.append({'e': 'crash'})
        return {'kind': c.typ, 'n': c.n, 'D': c.weights(), 'lim': c.lim(), 'dims': c.dims, 'dbg': bool(self.dbg), 'ev': ev}


def den_seq(R):
    """the stream preprocessor on enough points to start"""
    ops = [('p', R.choice(PRE[7:])), ('c', OPTS), ('r',)]
    p = [[R.randint(0, 20), R.randint(0, 20)] for _ in range(R.randint(1000, 1100))]
    return FSeq(TREE, p, R.choice([1.5, 3.5]), 1, ops, R.randrange(2))


def files(s):
    s.__class__ = FSeq
    return s


def run(ck):
    R = ck.rng
    big = ck.thorough
    ck.build('drv_stage')
    ck.design('MC_Files', 'MC_Files.cfg', 'the output folder along every short sequence of stages', consts={'MaxRuns': '4' if big else '3'})
    pr = ck.design('MC_Stages', 'MC_Stages.cfg', 'regular stage sequences, emitted', consts={'Noise': '0', 'Again': '1' if big else '0', 'Names': '{"distMatrix", "neighGraph", "rips", "fast", "persistence", "upscale"}'})['printed']
    pr = [x for _, x in sorted({str(x): x for x in pr}.items())]
    pr = R.sample(pr, min(len(pr), 8000 if big else 500))
    items = [files(from_tlc(R, x, i % 3 > 0, big)) for i, x in enumerate(pr)]
    items += [files(random_seq(R)) for _ in range(4000 if big else 400)]
    items += [files(pre_seq(R)) for _ in range(1000 if big else 150)]
    # six printed digits tell distances apart below seventy only
    items = [x for x in items if max(max(r, default=0) for r in x.case.weights()) < 4 * 70 ** 2]
    flow.judge(ck, 'drv_stage', items, FSeq.line, FSeq.trace, 'FilesTrace', show=FSeq.show, what='files of a run')
