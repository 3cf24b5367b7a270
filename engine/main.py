"""check <property>: decide one property on /repo's current working tree."""
import re, sys, os, json, time, hashlib, multiprocessing, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import dump as dumper

VERIF = dumper.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')

def canon_fp(line):
    """drop what only numbers things in the order they were met"""
    return hash(re.sub(r'@[0-9.]*\.(\d+)', r'@\1', re.sub(r'#e\d+', '', line)))

def item_of(line):
    """what one line of a fingerprint file is about: (kind, name)"""
    kind, rest = line.split(' ', 1)
    if kind == 'bodies': return kind, rest.split(' {"', 1)[0]
    m = re.search(r'"(?:key|path)": ?"((?:[^"\\\\]|\\\\.)*)"', rest)
    return kind, m.group(1) if m and kind in ('roots', 'adts', 'statics', 'traits') else rest.strip()[:160]

def key_of(prop, r):
    return '%s:%s:%s:%s: %s' % (r['family'], r['subject'], r['side'], r['aspect'], r['msg'])

_P = {}
_OBS = []
def _work(i):
    import obligations
    ob = _OBS[i]
    t = time.time()
    try: v, s = obligations.run(_P[ob.feature], ob)
    except Exception as e:
        v, s = [('stuck', 'analyser error: %s' % traceback.format_exc()[-600:], None)], {}
    s = dict(s); s['wall'] = time.time() - t
    return i, v, s

def obtain(features):
    """the program of the working tree, for each feature set; is the default build contained in the full build?"""
    import program, misc
    P = {}; fp = {}
    for feat in features:
        path = dumper.dump(feat)
        try:
            P[feat] = program.Program(path)
            if len(features) > 1:
                with open(path + '.fp') as f: fp[feat] = {canon_fp(l): item_of(l) for l in f}
        finally:
            for x in (path, path + '.fp'):
                if os.path.exists(x): os.remove(x)
    same = len(features) > 1 and fp['none'].keys() <= fp['full'].keys()
    misc.LEFT = None
    if len(features) > 1:
        have = set(fp['full'].values())
        misc.LEFT = sorted((i, i in have) for i in {i for h, i in fp['none'].items() if h not in fp['full']}), len(fp['none'])
    return P, same, {f: len(x) for f, x in fp.items()}

def select(prop, P, same):
    """{id: (obligation, aspects)} and how many obligations of the default build follow from the full build."""
    import obligations, props
    sel, features, floor = props.PROPS[prop]
    wanted = {}; moved = 0
    for fam in dict.fromkeys(x[0] for x in sel):
        for feat in features:
            for ob in obligations.FAMILIES[fam](P[feat], feat):
                asp = set()
                for b, fams, pred, a in sel:
                    if b == fam and (fams is None or ob.fam in fams) and pred(ob.subject): asp |= set(a)
                # every function, type and constant of the default build is also part of the full build, unchanged:
                # what is shown for the full build then holds for the default build as well
                if asp and same and feat == 'none' and ob.args and ob.id[:-4] + 'full' in wanted: moved += 1
                elif asp: wanted[ob.id] = (ob, asp)
    return wanted, moved

def discharge(P, obs, jobs=None):
    global _P, _OBS
    _P = P; _OBS = obs
    n = jobs or min(8, os.cpu_count() or 1)
    if n > 1 and len(_OBS) > 4:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(n) as pool: return pool.map(_work, range(len(_OBS)), chunksize=1)
    return [_work(i) for i in range(len(_OBS))]

def judge(prop, wanted, results, obs):
    import props
    recs = []
    for i, v, s in results:
        ob = obs[i]
        if ob.id not in wanted: continue
        for a, m, span in v:
            if a in wanted[ob.id][1]:
                recs.append({'family': ob.fam, 'subject': ob.subject, 'side': ob.side, 'feature': ob.feature, 'aspect': a, 'msg': m, 'span': span})
    if props.CROSS.get(prop): recs = props.CROSS[prop](recs, wanted, results, obs)
    floor = props.PROPS[prop][2]
    if len(wanted) < floor:
        recs.append({'family': 'coverage', 'subject': prop, 'side': '', 'feature': '', 'aspect': 'missing', 'msg': 'only %d of at least %d obligations found' % (len(wanted), floor), 'span': None})
    return recs

def analyse(prop, jobs=None):
    """run every obligation the property depends on; returns (records, stats)."""
    import props
    import progress
    progress.ON = prop == 'C30'
    P, same, fp_stat = obtain(props.PROPS[prop][1])
    wanted, moved = select(prop, P, same)
    obs = [o for o, a in wanted.values()]
    results = discharge(P, obs, jobs)
    recs = judge(prop, wanted, results, obs)
    stats = {'obligations': len(obs), 'per_family': {}, 'samples': [], 'floor': props.PROPS[prop][2]}
    badids = {(r['family'], r['subject'], r['side'], r['feature']) for r in recs}
    funcs = set(); tot = {}
    for i, v, s in results:
        ob = obs[i]
        bad = (ob.fam, ob.subject, ob.side, ob.feature) in badids
        f = stats['per_family'].setdefault(ob.fam, {'obligations': 0, 'discharged': 0})
        f['obligations'] += 1; f['discharged'] += 0 if bad else 1
        for k, x in s.items():
            if isinstance(x, int): tot[k] = tot.get(k, 0) + x
        for k in s.get('analysed', ()): funcs.add((ob.feature, k))
        if len(stats['samples']) < 12 and i % max(1, len(obs) // 12) == 0:
            stats['samples'].append({'obligation': ob.id, 'paths': s.get('exits'), 'steps': s.get('steps'), 'violated': bad})
    stats['totals'] = tot
    stats['functions_analysed'] = len(funcs)
    stats['default_build'] = {'items_compared': fp_stat, 'identical_in_both_builds': same, 'obligations_transferred': moved}
    return recs, stats

def load_known():
    try: return json.load(open(KNOWN))
    except FileNotFoundError: return {'findings': []}

def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import props
    try: recs, stats = analyse(prop)
    except Exception:
        # the program could not be obtained or analysed at all: fail closed
        recs = [{'family': 'analysis', 'subject': prop, 'side': '', 'feature': '', 'aspect': 'stuck', 'msg': traceback.format_exc()[-3000:], 'span': None}]
        stats = {'obligations': 0}
    known = {f['key']: f for f in load_known().get('findings', []) if f['property'] == prop}
    new = []; hit = {}
    for r in recs:
        k = key_of(prop, r)
        if k in known: hit[k] = known[k]
        else: new.append(r)
    seen = set(); uniq = []
    for r in new:
        k = key_of(prop, r)
        if k not in seen: seen.add(k); uniq.append(r)
    for k, f in hit.items(): print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = {'explanation': props.EXPLAIN.get(prop, '') + ' Method: abstract interpretation of the type-checked MIR of the working tree; every path of every listed function is covered by an abstract path; nothing is executed.',
           'obligations': stats.get('obligations', 0), 'discharged': sum(f['discharged'] for f in stats.get('per_family', {}).values()),
           'per_family': stats.get('per_family', {}), 'functions_analysed': stats.get('functions_analysed', 0), 'totals': stats.get('totals', {}),
           'rule': props.RULE.get(prop, ''), 'default_build': stats.get('default_build'), 'samples': stats.get('samples', []), 'floor': stats.get('floor', 0), 'exhaustive': True}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': props.ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(uniq)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if not uniq:
        print('%s: %d obligations discharged over %d functions (%.1f s)' % (prop, cov['obligations'], cov['functions_analysed'], time.time() - t0))
        return 0
    rep = os.path.join(VERIF, 'evidence', prop + '.violations.json')
    json.dump(uniq, open(rep, 'w'), indent=1)
    for r in uniq[:40]:
        print('  %s %s %s [%s] %s%s' % (r['family'], r['subject'], r['side'], r['aspect'], str(r['msg'])[:600], ' at %s' % r['span'] if r['span'] else ''))
    print('VIOLATION property=%s replay=%s' % (prop, rep))
    return 1

if __name__ == '__main__': sys.exit(main())
