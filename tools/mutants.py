"""Hand-made mutants: apply each to a scratch copy of /repo and see whether the property's check reports it.

  tools/mutants.py [filter...]     (filter: property id or part of the mutant's name)
"""
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))


def main():
    from mutant_list import MUTANTS
    want = sys.argv[1:]
    D = '/tmp/mut/copy-%d' % os.getpid()
    os.makedirs(D)
    tot = hit = 0
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % D, shell=True, check=True)
        for prop, name, path, old, new in MUTANTS:
            if want and not any(w == prop or w in name for w in want):
                continue
            f = os.path.join(D, path)
            src = open(f).read()
            if src.count(old) != 1:
                print('?? %s %s: %d matches' % (prop, name, src.count(old)))
                continue
            open(f, 'w').write(src.replace(old, new))
            t = time.time()
            try:
                if f.endswith('.py'):
                    compile(open(f).read(), f, 'exec')
                for pr in prop.split(','):
                    r = subprocess.run(['./run', 'check', pr, 'quick'], cwd=VERIF, env=dict(os.environ, SIM_REPO=D, SIM_NOEVIDENCE='1'), capture_output=True, text=True)
                    tot += 1
                    ok = r.returncode == 1
                    hit += ok
                    ls = r.stdout.strip().splitlines()
                    print('%s %s %-34s rc=%d %4.1fs %s' % ('ok  ' if ok else 'MISS', pr, name, r.returncode, time.time() - t, (ls[1] if ok else ls[-1] if ls else r.stderr[-200:])[:170]), flush=True)
            finally:
                open(f, 'w').write(src)
    finally:
        shutil.rmtree(D)
    print('%d of %d caught' % (hit, tot))


main()
