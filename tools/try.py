#!/usr/bin/env python3
"""Development aid: explores the entry points of one driver."""
import sys, time
sys.path.insert(0, '/verif')
from engine import prog, explore, speclib, source
MODES = sys.argv[4].split(',') if len(sys.argv) > 4 else ['abstract','weaken','exact']
def main():
    d = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else ''
    dbg = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    import os; p = prog.load(d, tuple(os.environ['FLAGS'].split())) if os.environ.get('FLAGS') else prog.load(d)
    for f in sorted(p.f.values(), key=lambda f: f['l'] and f['l'][1] or 0):
        if f['n'].startswith('spec_') and pat in f['n'] and f.get('body'):
          for mode in MODES:
            r = explore.explore(p, speclib.config, speclib.scenario_of(f), f['n'], debug=dbg, max_secs=60, mode=mode)
            if mode!='exact' and r.verdict()=='proved': stop=True
            else: stop=False
            print('%-36s %-8s %-10s paths=%d complete=%d covered=%d cut=%d %.2fs' % (f['n'], mode, r.verdict(), r.paths, r.complete, r.covered, r.cut, r.secs))
            for x in r.findings:
                print('   FINDING', x)
                if dbg:
                    for n in x.notes: print('      ', n)
            for x in list(dict.fromkeys(r.doubts))[:2]:
                print('   doubt', x)
            if stop and len(sys.argv)<=4: break
main()
