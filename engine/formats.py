"""Rule for Debug and Display: formatting never panics, reports exactly the formatter's failures, Debug shows
every member, Display tells the kinds apart.

A call that hands something to a formatter is an event; what it is given (places in the value, constants,
terms computed from members) is collected along the path."""
from domain import Int
from engine import Agg, Opq, Ref, Seq, Stuck, UNIT, Engine
from events import EventClient, short

RESULT = 'core::result::Result'
def walk(E, st, v, root, out, n=0):
    """the places and terms reachable from what is handed over."""
    if n > 12: out.append(('deep',)); return
    if v.__class__ is Ref:
        if v.r == root: out.append(('at', tuple(v.p))); return
        if v.r[0] == 'lit': 
            t, m = v.r[1], v.m
            if m and all(x.__class__ is Int and x.k == 'c' for x in m):
                b = t.encode() if t.__class__ is str else t
                t, m = b[m[0].x:m[0].x + m[1].x], None
            out.append(('lit', t if t.__class__ is bytes else t.encode(), tuple(E.term(x) for x in m) if m else None)); return
        try: w = E.read(st, (v.r, v.p))
        except Stuck: out.append(('t', E.term(v))); return
        walk(E, st, w, root, out, n + 1)
    elif v.__class__ is Agg:
        for x in v.f: walk(E, st, x, root, out, n + 1)
        if not v.f: out.append(('v', v.v))
    elif v.__class__ in (tuple, list):
        for x in v: walk(E, st, x, root, out, n + 1)
    elif v.__class__ is Seq:
        items = getattr(v, 'items', None)
        refs = []
        collect_refs(v, refs)
        for x in refs: walk(E, st, x, root, out, n + 1)
        out.append(('t', E.term(v)))
    elif v is not None:
        t = E.term(v); unpack(t, out)
def collect_refs(x, out, n=0):
    if n > 10: return
    if x.__class__ is Ref: out.append(x)
    elif x.__class__ in (tuple, list):
        for y in x: collect_refs(y, out, n + 1)
    elif x.__class__ is Seq or x.__class__ is Agg:
        for s in getattr(x, '__slots__', ()) or vars(x): collect_refs(getattr(x, s, None), out, n + 1)
def unpack(t, out):
    """what a formatted text was made of."""
    found = []
    def go(t):
        if t.__class__ is not tuple: return
        if len(t) == 2 and t[0] == 'shown': found.extend(t[1]); return
        for y in t: go(y)
    go(t)
    out.extend(found)
    if not found: out.append(('t', t))
def mentions(t, x):
    if t == x: return True
    return t.__class__ is tuple and any(mentions(y, x) for y in t)

class FormatClient(EventClient):
    """ghost 'out': what was handed to the formatter; 'fail': it has reported a failure."""
    root = None; trait = None; whole = False
    def partition(self, E, st): return id(st)
    def alloc(self, E, st, what, n, fallible, ty): pass
    def intercept(self, E, st, c, a, rty):
        tr = c.get('trait') or ''; path = c.get('rpath') or c.get('path') or ''; m = c.get('m')
        if path in ('alloc::fmt::format', 'alloc::fmt::format::format_inner') or (tr == 'alloc::string::ToString' and m == 'to_string'):
            return Opq(rty, ('shown', self.items(E, st, a)))
        if not (tr.startswith('core::fmt::') or c.get('path', '').startswith('core::fmt::') or '::core::fmt::' in c.get('path', '') or path.startswith('core::fmt::')): return None
        if path.startswith(('core::fmt::Arguments', 'core::fmt::rt::')):
            it = self.items(E, st, a)
            if m in ('new_display', 'new_debug') and ('at', ()) in it and m[4:] == self.trait.lower(): return self.bad(E, st, 'panic', 'formats itself without end')
            return Opq(rty, ('shown', it))
        it = self.items(E, st, a)
        t = E.T[rty]
        if t.get('path') == RESULT:
            if tr == 'core::fmt::' + self.trait and m == 'fmt' and ('at', ()) in it: return self.bad(E, st, 'panic', 'formats itself without end')
            st.g['out'] += it
            s = st.fork(); s.g['fail'] = True
            return [(st, E.enum(rty, 'Ok', UNIT)), (s, E.enum(rty, 'Err', E.mk(E.payload_ty(rty, 'Err'), ('fmterr',))))]
        if t['k'] == 'ref':
            st.g['out'] += it
            if a and a[0].__class__ is Ref: return a[0]
            return None
        if t['k'] == 'adt' and short(t['path']).startswith('Debug'): st.g['out'] += it
        return E.mk(rty, ('fmtq', path, E.fresh(st, ('fmtq', path))))
    def items(self, E, st, a):
        out = []
        for v in a: 
            if v.__class__ is Ref and v.r == self.formatter: continue
            walk(E, st, v, self.root, out)
        return tuple(x for x in out if not (x[0] == 't' and mentions(x[1], ('formatter',))))

def pinned(E, st, v):
    """the path knows which value this is."""
    if v.__class__ is Int: return st.f.simp(v).k == 'c'
    if v.ty is not None and E.is_enum(v.ty):
        k = E.known_variant(st, v)
        if k is None: return False
        w = v if v.__class__ is Agg else E.expand(st, v, k)
        return all(pinned(E, st, x) for x in w.f)
    return v.__class__ is Agg and all(pinned(E, st, x) for x in v.f)
def shown(E, st, out, p, v):
    p = (p,)
    for x in out:
        if x[0] == 'at' and (x[1][:1] == p or p[:len(x[1])] == x[1]): return True
        if x[0] == 't' and v is not None and mentions(x[1], E.term(v)): return True
        if x[0] == 'deep': return True
    return v is not None and pinned(E, st, v)

def check(P, key, ty, trait):
    viol = []; stats = {'exits': 0, 'steps': 0, 'analysed': set()}
    cl = FormatClient(); cl.trait = trait; E = Engine(P, cl, unroll=12)
    t = E.T[ty]; name = short(P.ts(ty)); texts = {}; own = not t.get('args')
    for k in (range(len(t['v'])) if t['adt'] == 'enum' else (None,)):
        v = E.mk(ty, ('val', 0)) if k is None else Agg(ty, k, tuple(E.mk(f[1], ('val', 0, f[0])) for f in t['v'][k]['f']))
        if k is None: v = E.expand(None, v) if v.__class__ is Opq else v
        cl.root = ('X', ('value', 0), ty); cl.formatter = ('X', ('formatter',), None)
        f = E.mk(P.bodies[key]['locals'][2], ('formatter',))
        if f.__class__ is Ref: cl.formatter = f.r
        exits = E.run(key, [Ref(cl.root), f], {'out': (), 'fail': False}, mem={cl.root: v})
        viol += [x for x in cl.viol if x not in viol]
        stats['exits'] += len(exits); stats['steps'] += E.steps; stats['analysed'] |= E.analysed
        kinds = [(i, fld) for i, fld in enumerate(t['v'][0]['f']) if k is None and is_kind(E, fld[1])]
        for ex in exits:
            if ex.kind != 'ret': viol.append(('stuck' if ex.kind == 'stuck' else 'panic', str(ex.val), ex.span)); continue
            try:
                r = ex.val; n = E.known_variant(ex.st, r)
                if n is None: raise Stuck('result %r' % (r,))
                ok = E.T[r.ty]['v'][n]['n'] == 'Ok'; fail = ex.st.g['fail']
                if ok and fail: viol.append(('swallow', 'a failure of the formatter is not reported', ex.span)); continue
                if not ok and not fail: viol.append(('value', 'reports a failure the formatter did not have', ex.span)); continue
                if fail: continue
                out = ex.st.g['out']
                if trait == 'Debug' and own:
                    for i, fld in enumerate(t['v'][k or 0]['f']):
                        if not shown(E, ex.st, out, (k or 0, i), E.proj(ex.st, v, (k or 0, i))): viol.append(('value', 'the member %s of %s is not shown' % (fld[0], name), ex.span))
                if trait == 'Display' and k is not None:
                    for i, fld in enumerate(t['v'][k]['f']):
                        if not shown(E, ex.st, out, (k, i), E.proj(ex.st, v, (k, i))): viol.append(('value', 'the content of %s is not shown' % t['v'][k]['n'], ex.span))
                        elif not any(x[0] == 'at' and x[1] in ((), ((k, i),)) for x in out):
                            for j, kf in inner_kinds(E, fld[1]):
                                if any(x[0] == 'at' and x[1][:2] == ((k, i), (0, j)) for x in out): continue
                                kk = E.in_range_variants(ex.st, E.proj(ex.st, E.expand(ex.st, E.proj(ex.st, v, (k, i))), (0, j)))
                                for m, vv in enumerate(E.T[kf[1]]['v']):
                                    if m in kk: texts.setdefault(('the %s in %s' % (kf[0], t['v'][k]['n']), out), set()).add(vv['n'])
                if k is not None and own: texts.setdefault((name, out), set()).add(t['v'][k]['n'])
                if trait == 'Display':
                    for i, fld in kinds:
                        w = E.proj(ex.st, v, (0, i))
                        if any(x[0] == 'at' and x[1][:1] == ((0, i),) for x in out): continue
                        kk = E.in_range_variants(ex.st, w)
                        for j, vv in enumerate(E.T[fld[1]]['v']):
                            if j in kk: texts.setdefault((fld[0], out), set()).add(vv['n'])
            except Stuck as e: viol.append(('stuck', str(e), ex.span))
    for (w, out), s in sorted(texts.items(), key=str):
        if len(s) > 1 and not any(x == ('at', ()) or x[0] == 'at' and trait == 'Debug' for x in out):
            viol.append(('value', 'the text of a %s does not tell apart %s of %s' % (name, ' and '.join(sorted(s)[:4]), w), P.bodies[key].get('span')))
    stats['analysed'] = sorted(stats['analysed'])
    if not stats['exits'] and not viol: viol.append(('value', 'never returns', None))
    out = []
    for v in viol:
        if v not in out: out.append(v)
    return out, stats
def inner_kinds(E, ty):
    t = E.T[ty]
    if t['k'] != 'adt' or t.get('adt') != 'struct': return []
    return [(j, f) for j, f in enumerate(t['v'][0]['f']) if is_kind(E, f[1])]
def is_kind(E, ty):
    t = E.T[ty]
    return t['k'] == 'adt' and t.get('adt') == 'enum' and t['path'].startswith('parquet_format_safe::') and all(not v['f'] for v in t['v'])
