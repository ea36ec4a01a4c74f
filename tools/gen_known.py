#!/usr/bin/env python3
"""writes known-findings.json: the defects that are recorded, and the ones repaired in /repo"""
import json, os, subprocess
F = '''4915b79 C11
9989b7a C11
81259fe C01
ddb0e75 C01
c745cbc C05
cf26edc C02
2521dcc C02
e8b6479 C12
e6b48d8 C11
4f46e88 C01
4cc0ee7 C01
bf937ef C01
dd0e1e7 C06
38dce6c C20
9156500 C19
bff89af C17
8382b08 C09
84d6b9a C10
ee2dbaa C10
9d8a7bb C16
537b603 C02
cf1bd8e C10
986d042 C07
303daae C10
c0f5dd1 C20
6300d75 C10
c03b154 C15
8eedf49 C14
ea09551 C14
f6ffc93 C18
c5f2564 C18
6a4c498 C18
0575850 C18
8641253 C12
70bbabd C22
eadc125 C12
0c3de3b C18
79ab63b C18
d417cf3 C16
b151147 C10
dd82942 C10
7d32537 C21
ebd7239 C09
7cf6c92 C12
cf7a2d1 C15
d352f8e C14
942a812 C15
f279320 C15
8652027 C17
8eeabb6 C18
59cb1d4 C18
f461edf C22
79aee60 C22
45c9d22 C22
96d4d8c C04
19a4307 C10'''
EXTRA = []
K = [{'property': 'C11', 'case': ['deepest', k], 'key': 'stack-overflow',
      'what': 'the parser and the syntax tree visitors recurse without limit: 100000 levels of nesting (%s) overflow an 8 MB stack' % k}
     for k in ('paren', 'array', 'if', 'minus', 'indexes', 'chain')]
log = dict(l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--abbrev=7', '--format=%h %s'], text=True).splitlines())
fixed = []
for l in F.splitlines() + EXTRA:
    h, p = l.split()
    fixed.append('fixed: property=%s %s %s' % (p, h, log[h].replace('fix: ', '')))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json'), 'w') as f:
    json.dump({'known': K, 'fixed': fixed}, f, indent=1)
    f.write('\n')
