"""Run the program itself, each run in a scratch directory of its own."""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vlib

ROW = re.compile(r'([^,]*),\d+\.\d+,\d+\.\d+,(?:B|KB|MB|GB),(\d+),(\d+)')
PREROW = re.compile(r'([^,]*),\d+\.\d+')


def rows(text):
    """statistics rows: [name, vertices, simplices] of a stage, [name] of a preprocessor"""
    out = []
    for l in text.split('\n')[:-1]:
        m, q = ROW.fullmatch(l), PREROW.fullmatch(l)
        out.append([m.group(1), int(m.group(2)), int(m.group(3))] if m else [q.group(1)] if q else ['bad row'])
    if text and not text.endswith('\n'):
        out.append(['bad row'])
    return out


def one(ck, args, files, timeout, want):
    wd = tempfile.mkdtemp(prefix='run', dir=ck.tmp)
    try:
        os.makedirs(os.path.join(wd, 'output'))
        os.makedirs(os.path.join(wd, 'sub'))
        for k, v in files.items():
            with open(os.path.join(wd, k), 'w', newline='') as f:
                f.write(v)
        env = dict(os.environ, MALLOC_PERTURB_='165', OMP_NUM_THREADS='1')
        try:
            p = subprocess.run([os.path.join(ck.tmp, 'LHF')] + args, cwd=wd, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
            code, out = p.returncode, p.stdout.decode('latin-1')
        except subprocess.TimeoutExpired:
            code, out = 'timeout', ''
        got = {}
        for k in want:
            try:
                with open(os.path.join(wd, k), encoding='latin-1', newline='') as f:
                    got[k] = f.read()
            except OSError:
                pass
        return {'exit': code, 'stdout': out, 'files': got}
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run_all(ck, items, timeout=20):
    """items: objects with args, files, want -> answers"""
    hung = []

    def go(x):
        if len(hung) >= vlib.NCPU:      # runs that do not end, confirmed
            return None
        a = one(ck, x.args, x.files, timeout, x.want)
        if a['exit'] == 'timeout':
            a = one(ck, x.args, x.files, 3 * timeout, x.want)
            if a['exit'] == 'timeout': hung.append(x)
        return a
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        return list(ex.map(go, items))


def judge(ck, items, module, what, keep=False, cfg='Trace.cfg', **kw):
    ans = run_all(ck, items)
    if None in ans:
        ck.notes.append('%d runs left out after others did not end' % ans.count(None))
        items, ans = [x for x, a in zip(items, ans) if a], [a for a in ans if a]
    traces = [vlib.projected(x.trace, a) for x, a in zip(items, ans)]
    sel = [i for i, t in enumerate(traces) if t is not None]       # None: set aside by the caller, with a reason
    items, ans, traces = [items[i] for i in sel], [ans[i] for i in sel], [traces[i] for i in sel]
    for k, step in ck.validate(module, cfg, traces, **kw):
        x, a, t = items[k], ans[k], traces[k]
        if not keep:
            a2 = run_all(ck, [x])[0]
            t2 = vlib.projected(x.trace, a2)
            if t2 is None: continue
            b2 = ck.validate(module, cfg, [t2], **kw)
            if not b2:
                ck.notes.append('a rejected recording did not repeat: %s' % x.args)
                continue
            a, t, step = a2, t2, b2[0][1]
        ev = t['ev'][step - 1] if 0 < step <= len(t['ev']) else None
        ck.violation('%s rejected by %s at event %d (exit %s): %s' % (what, module, step, a['exit'], str(x.show())[:400]),
                     {'arguments': x.args, 'files': x.files, 'answer': a, 'rejected_event': ev, 'trace': t, 'module': module})
        ck.hangs += a['exit'] == 'timeout'
        ck.enough()
    if traces and len(ck.samples) < 6:
        import json
        s = json.dumps(traces[len(traces) // 2])
        ck.samples.append(s if len(s) < 1500 else s[:1500] + '...')
    ck.extra['runs_of_the_real_code'] = ck.extra.get('runs_of_the_real_code', 0) + len(items)
    return ans, traces


def number(R, x):
    """one of the ways to write x"""
    if x == int(x):
        i = int(x)
        return R.choice(['%d', '%d', '%d', '%d.0', '%d.', '%de0', '%d.000']) % i if R.random() < .9 else '%.1fe1' % (i / 10)
    return R.choice([repr(x), '%.3f' % x, '%.2f' % x, '%se0' % x])


def csv(R, rows_, plain=False):
    """one of the ways to write the rows"""
    nl = '\r\n' if R.random() < .15 else '\n'
    pad = (lambda s: R.choice(['', ' ']) + s + R.choice(['', '', ' '])) if R.random() < .15 else (lambda s: s)
    w = (lambda x: '%d' % x if x == int(x) else repr(x)) if plain or R.random() < .5 else (lambda x: number(R, x))
    end = R.choice(['', '', '', ','])
    t = nl.join(','.join(pad(w(x)) for x in r) + end for r in rows_)
    return t + R.choice([nl, nl, nl, '', nl + nl])
