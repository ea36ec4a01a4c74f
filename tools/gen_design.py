"""writes DESIGN.md from the checks, tools/design_notes.py and tools/catches.json"""
import importlib, json, os, re, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks', V + '/tools']
import design_notes as N

props = [json.loads(l) for l in open(V + '/properties.jsonl')]
catches = json.load(open(V + '/tools/catches.json'))
known = json.load(open(V + '/known-findings.json'))
w = lambda t, i='': textwrap.fill(' '.join(t.split()), 118, initial_indent=i, subsequent_indent=' ' * len(i))
out = [N.HEAD.strip(), '']
for p in props:
    m = importlib.import_module(p['id'].lower())
    src = open(V + '/checks/%s.py' % p['id'].lower()).read()
    kinds = []
    for name, body in re.findall(r'^def do_(\w+)\(.*?\):\n(.*?)(?=^def |\Z)', src, re.M | re.S):
        d = re.match(r'\s+"""(.*?)"""', body, re.S)
        kinds.append(name + (' (%s)' % ' '.join(d.group(1).split()) if d else ''))
    n = N.NOTES[p['id']]
    out += ['### %s %s' % (p['id'], p['title']), '', w(m.RULE, '* Decided by: '), w(n[0], '* Oracle: '), w(', '.join(kinds) + '.', '* Families of cases: '), w(n[1], '* Bounds and cost: '),
            w(n[2], '* Beyond the tests: ')]
    a = getattr(m, 'ASSUME', None)
    if a:
        out.append(w('; '.join(a) + '.', '* Left open: '))
    b = sorted(k for k, v in catches.items() if v['property'] == p['id'])
    if b:
        out.append(w(', '.join('%s (%s)' % (k, 'by ' + ', '.join(catches[k]['caught_by']) if catches[k]['caught_by'] else 'missed') for k in b) + '.', '* Planted bugs: '))
    out.append('')
out += [N.TAIL.strip(), '']
out += ['## Defects repaired in /repo', '', w('%d "fix:" commits; each is listed in known-findings.json under "fixed", with the property whose check showed it.' % len(known['fixed'])), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
print(len(out))
