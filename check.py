#!/usr/bin/env python3-vt
"""check.py Cxx [--tier quick|thorough] [--only text] [-v] | --replay FILE"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier')
    ap.add_argument('--seed')
    ap.add_argument('--only')
    ap.add_argument('--cap', type=float)
    ap.add_argument('--procs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from sx import run
    if a.replay:
        import shutil
        import tempfile
        d = json.load(open(a.replay))
        t = tempfile.mkdtemp(prefix='sxr')
        if d.get('hashseed') == 'all':
            c, _ = run.across_seeds(tuple(d['unit']), d['inputs'], t + '/w')
        else:
            r = run.Replayer(str(d.get('hashseed', '0')))
            c = r.run(tuple(d['unit']), d['inputs'], t + '/w')
            r.close()
        shutil.rmtree(t, ignore_errors=True)
        print(json.dumps(c, indent=1))
        return 1 if c.get('fails') else 0
    return run.main(a.pid.upper(), a.tier, a.seed, a.only, a.v, a.cap, a.procs)


if __name__ == '__main__':
    sys.exit(main())
