#!/usr/bin/env python3
"""show the replay files of a property"""
import glob, json, sys
for f in sorted(glob.glob('/verif/replay/%s-*.json' % sys.argv[1])):
    d = json.load(open(f))
    print('=====', f, d.get('case'), d.get('key'))
    for k, v in (d.get('detail') or d).items():
        print(k, ':', str(v)[:int(sys.argv[2]) if len(sys.argv) > 2 else 1500])
