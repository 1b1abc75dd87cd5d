"""Writes DESIGN.md from its parts: the text below, KNOWN_FINDINGS, and seeded/*/meta.json with the
checks recorded in tools/caught.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(V + '/tools/design_head.md').read()
ROWS = json.load(open(V + '/tools/design_rows.json'))
TAIL = open(V + '/tools/design_tail.md').read()

out = [HEAD.rstrip(), '', '## Properties', '']
titles = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    titles[p['id']] = p['title']
for k in sorted(titles):
    r = ROWS[k]
    out += ['### %s - %s' % (k, titles[k]),
            '*Specified in* %s.  *Explored exhaustively:* %s' % (r['spec'], r['design']),
            '',
            '*Bound to the code:* %s' % r['code'],
            '',
            '*Why tests cannot settle it:* %s  *Cost:* quick about %s s, thorough about %s s on eight cores.' % (r['why'], r['quick'], r['thorough']), '']
out += ['## Genuine defects', '', 'Repaired in `/repo` (one `fix:` commit each) or, marked open, recorded:', '']
for l in open(V + '/KNOWN_FINDINGS'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l.strip())
    if m: out.append('* %s `%s` %s' % (m.group(1), m.group(2)[:8], m.group(3)))
    m = re.match(r'open: property=(\w+) (.*)', l.strip())
    if m: out.append('* **open** %s %s' % (m.group(1), m.group(2)))
out += ['', '## Planted bugs', '',
        'Each in `seeded/<id>` with a demonstration; "caught by" lists the checks that were run and reported it (quick tier, seed 1).', '',
        '| id | property | what breaks | what it needs | caught by |', '|---|---|---|---|---|']
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    i = os.path.basename(d)
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], ', '.join(caught.get(i, [m['property']]))))
out += ['', TAIL.rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
