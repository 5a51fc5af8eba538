"""Run every contract harness natively on the unchanged tree with random values: none may fail.
   (The native search only ever runs after the verifier rejected an obligation, but what it calls a failing input must be one.)
   selftest.py SECS [ID...]"""
import sys, os, glob, tempfile, shutil, concurrent.futures as cf
sys.path.insert(0, '/verif')
from vp import check
secs = int(sys.argv[1]); ids = sys.argv[2:]
jobs = []
tmp = tempfile.mkdtemp(prefix='selftest')
for f in sorted(glob.glob('/verif/harness/P*/*.cc')):
    if ids and f.split('/')[3] not in ids: continue
    h = check.parse_harness(f)
    for n in h['names']: jobs.append((h, f.split('/')[3], n))
def run(j):
    h, prop, n = j
    w = os.path.join(tmp, prop + os.path.basename(h['path']) + n); os.makedirs(w)
    try: ok, txt, _ = check.native_replay(h, n, {'env': {}}, w, prop, 'x', secs)
    except Exception as e: ok, txt = True, repr(e)
    shutil.rmtree(w)
    return prop, n, ok, txt
with cf.ThreadPoolExecutor(8) as ex:
    for prop, n, ok, txt in ex.map(run, jobs):
        last = txt.strip().splitlines()[-1] if txt.strip() else ''
        bad = ok or 'NOT-FOUND' not in txt
        print('BAD' if bad else 'ok ', prop, n, last[:150])
        if bad: print('   ', txt[:int(os.environ.get('SHOW', '600'))].replace('\n', '\n    '))
shutil.rmtree(tmp)
