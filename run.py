#!/usr/bin/env python3
"""run.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import engine, build

if __name__ == '__main__':
    a = sys.argv[1:]
    opt = {}
    pos = []
    while a:
        x = a.pop(0)
        if x.startswith('--'):
            opt[x[2:]] = a.pop(0)
        else:
            pos.append(x)
    tier = opt.get('tier') or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(opt.get('seed') or os.environ.get('VERIF_SEED') or 1)
    try:
        rc = engine.main(pos[0], tier, seed, opt.get('replay'))
    except build.BuildError as e:
        print(e, file=sys.stderr)
        rc = 2
    sys.exit(rc)
