"""mutant.py DIR [PROP...]: run every obligation once on a copy of the repository and say which properties report what."""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ['VERIF_REPO'] = os.path.abspath(sys.argv[1])
sys.path.insert(0, os.path.join(V, 'engine')); sys.setrecursionlimit(20000)
import main, props, progress
P, same, fp = main.obtain(('full', 'none'))
ids = sys.argv[2:] or list(props.PROPS)
progress.ON = 'C30' in ids
W = {i: main.select(i, P, same)[0] for i in ids}
allobs = {}
for w in W.values():
    for k, (o, a) in w.items(): allobs[k] = o
obs = list(allobs.values())
res = main.discharge(P, obs)
out = {}
for i in ids:
    rs = main.judge(i, W[i], res, obs)
    if rs: out[i] = rs
print('alarms: %s%s' % (' '.join(out) or 'none', '' if same else '  [builds differ]'))
seen = set()
for i, rs in out.items():
    for r in rs:
        k = (r['family'], r['subject'], r['side'], r['aspect'], str(r['msg']))
        if k not in seen:
            seen.add(k)
            if len(seen) <= 12: print('   ', i, *k[:4], k[4][:260], r['span'])
