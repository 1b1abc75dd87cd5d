"""Drive cases through the real code and let TLC judge the recorded traces."""
import vlib


def judge(ck, driver, items, line, mk, module, cfg='Trace.cfg', show=None, keep=False, timeout=20, what='', **kw):
    """items -> one driver case each -> one trace each -> TLC.  A rejected trace is recorded
    again from a fresh run before it is reported (keep=True: the code is randomised, so the
    recording itself is the evidence and only a timeout is repeated)."""
    ans = ck.drive(driver, [line(x) for x in items], timeout=timeout)
    skip = [a['crash'] == 'skipped' for a in ans]
    if any(skip):       # the driver gave up waiting: earlier cases of the same process did not end
        ck.notes.append('%d cases not run after others did not end' % sum(skip))
        items, ans = [x for x, s in zip(items, skip) if not s], [a for a, s in zip(ans, skip) if not s]
    traces = [vlib.projected(mk, x, a) for x, a in zip(items, ans)]
    bad = ck.validate(module, cfg, traces, **kw)
    for k, step in bad:
        x, a, t = items[k], ans[k], traces[k]
        if not keep or a['crash'] == 'timeout':
            a2 = ck.drive(driver, [line(x)], timeout=min(timeout * 3, 120))[0]
            t2 = vlib.projected(mk, x, a2)
            b2 = ck.validate(module, cfg, [t2], **kw)
            if not b2:
                ck.notes.append('a rejected recording did not repeat: %s' % line(x)[:200])
                continue
            a, t, step = a2, t2, b2[0][1]
        ev = t['ev'][step - 1] if 0 < step <= len(t['ev']) else None
        ck.violation('%s rejected by %s at event %d (%s)%s: %s' % (
            what or 'recorded run', module, step, ev.get('e') if isinstance(ev, dict) else ev,
            ' after ' + a['crash'] if a['crash'] else '', str(show(x) if show else line(x))[:400]),
            {'driver': driver, 'case': line(x), 'input': show(x) if show else None, 'rejected_event': ev,
             'answer': a, 'trace': t, 'module': module})
        ck.hangs += a['crash'] == 'timeout'
        ck.enough()
    if traces and len(ck.samples) < 6:
        import json
        s = json.dumps(traces[len(traces) // 2])
        ck.samples.append(s if len(s) < 1500 else s[:1500] + '...')
    ck.extra['runs_of_the_real_code'] = ck.extra.get('runs_of_the_real_code', 0) + len(items)
    return ans, traces
