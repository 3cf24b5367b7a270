"""Rule for values as values: equality, ordering and cloning go member by member.

The comparison of two members (through PartialEq, Ord or PartialOrd) and the cloning of a member are atomic
events on that member; each has its own obligation for its own type.  Unions are analysed per pair of
variants.  Every exit must be what the declared members say, whatever the members' comparisons yield."""
from domain import Int, C, TRUE, FALSE
from engine import Agg, Opq, Ref, Stuck, UNIT, Engine
from events import EventClient, short
import models

ORD = {'Less': -1, 'Equal': 0, 'Greater': 1}
class ValueClient(EventClient):
    """ghost 'm': what is known about the members compared so far, ((path, relation), ..), relation of
    the first value's member to the second's: lt eq gt ne"""
    roots = ()
    def partition(self, E, st): return id(st)          # no merging: these functions do not loop
    def alloc(self, E, st, what, n, fallible, ty): pass
    def place(self, E, st, v):
        """(which value, path) of a reference that leads into one of the compared values."""
        for _ in range(8):
            if v.__class__ is not Ref: return None
            if v.r in self.roots: return self.roots.index(v.r), tuple(v.p)
            v = E.read(st, (v.r, v.p))
        return None
    def value(self, E, st, v):
        for _ in range(8):
            if v.__class__ is not Ref: return v
            v = E.read(st, (v.r, v.p))
        return v
    def relation(self, E, st, x, y):
        """[(state, relation)] of two integers by the facts."""
        out = []
        for s, t in ((s, t) for s, t in models.with_len_fork(E, st, st.f.cmp('Eq', x, y))):
            if t: out.append((s, 'eq'))
            else:
                for s2, l in models.with_len_fork(E, s, s.f.cmp('Lt', x, y)): out.append((s2, 'lt' if l else 'gt'))
        return out
    def intercept(self, E, st, c, a, rty):
        tr, m = c.get('trait'), c.get('m')
        if (tr, m) in (('core::clone::Clone', 'clone'), ('alloc::borrow::ToOwned', 'to_owned'), ('alloc::string::ToString', 'to_string')):
            p = self.place(E, st, a[0])
            if p is not None and p[1]: return self.value(E, st, a[0])
            return None
        if tr == 'core::hash::Hash' and m == 'hash':
            p = self.place(E, st, a[0])
            if p is not None and not p[1]: return None
            if p is None:
                x = self.value(E, st, a[0])
                if x.__class__ is not Int or not function_of_value(x): return self.bad(E, st, 'value', 'hashes something that is not part of the value: %r' % (x,))
            return UNIT
        if tr == 'core::hash::Hasher' and m.startswith('write'):
            x = self.value(E, st, a[1])
            if self.place(E, st, a[1]) is None and (x.__class__ is not Int or not function_of_value(x)): return self.bad(E, st, 'value', 'hashes something that is not part of the value: %r' % (x,))
            return UNIT
        if tr not in ('core::cmp::PartialEq', 'core::cmp::Ord', 'core::cmp::PartialOrd') or m not in ('eq', 'ne', 'cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge'): return None
        pa, pb = self.place(E, st, a[0]), self.place(E, st, a[1])
        if pa is None or pb is None or not pa[1] or not pb[1]:
            x, y = self.value(E, st, a[0]), self.value(E, st, a[1])
            if x.__class__ is not Int or y.__class__ is not Int: return None
            rels = self.relation(E, st, x, y)
        else:
            if pa[1] != pb[1]: return self.bad(E, st, 'value', 'compares different members')
            if pa[0] == pb[0]: return self.bad(E, st, 'value', 'compares a member with itself')
            x, y = E.read(st, (self.roots[0], pa[1])), E.read(st, (self.roots[1], pa[1]))
            if x.__class__ is Int: rels = self.relation(E, st, x, y)
            elif one_value(E, x): rels = [(st, 'eq')]
            else: rels = self.member(E, st, pa[1], m)
            if pa[0] == 1: rels = [(s, {'lt': 'gt', 'gt': 'lt'}.get(r, r)) for s, r in rels]
        return [(s, self.result(E, m, r, rty)) for s, r in rels]
    def member(self, E, st, p, m):
        d = dict(st.g['m'])
        have = d.get(p)
        out = []
        for r in (('eq', 'ne') if m in ('eq', 'ne') else ('lt', 'eq', 'gt')):
            if have is not None and have != r and not (have in ('lt', 'gt') and r == 'ne') and not (have == 'ne' and r in ('lt', 'gt')): continue
            s = st.fork()
            if have not in ('lt', 'gt'): s.g['m'] = tuple(sorted({**d, p: r}.items()))
            out.append((s, r if have not in ('lt', 'gt') else have))
        return out
    def result(self, E, m, r, rty):
        if m in ('eq', 'ne'): return TRUE if (r == 'eq') == (m == 'eq') else FALSE
        if m in ('lt', 'le', 'gt', 'ge'): return TRUE if r in {'lt': ('lt',), 'le': ('lt', 'eq'), 'gt': ('gt',), 'ge': ('gt', 'eq')}[m] else FALSE
        n = {'lt': 'Less', 'eq': 'Equal', 'gt': 'Greater'}[r]
        if m == 'cmp': return E.enum(rty, n)
        return E.enum(rty, 'Some', E.enum(E.payload_ty(rty, 'Some'), n))

def function_of_value(x):
    def ok(t):
        if t.__class__ is not tuple: return True
        if t and t[0] in ('cap', 'call', 'ev', 'alloc'): return False
        return all(ok(y) for y in t)
    return x.k == 'c' or ok(x.x)
def one_value(E, x): return x.__class__ is Agg and not x.f and not E.is_enum(x.ty)
def pairs(E, ty, two):
    """the values to analyse: (variants or None, [value, value])."""
    t = E.T[ty]
    if t['adt'] == 'struct': yield None, [E.mk(ty, ('val', i)) for i in range(2)]; return
    mkv = lambda i, k: Agg(ty, k, tuple(E.mk(f[1], ('val', i, f[0])) for f in t['v'][k]['f']))
    for i in range(len(t['v'])):
        for j in range(len(t['v'])) if two else (i,): yield (i, j), [mkv(0, i), mkv(1, j)]
def members(E, ty, k): return [(f[0], (k, i)) for i, f in enumerate(E.T[ty]['v'][k]['f'])]

def ordering(E, v):
    if v.__class__ is Agg and E.path_of(v.ty) == 'core::option::Option':
        if v.v != E.variant_index(v.ty, 'Some'): return 'None'
        v = v.f[0]
    if v.__class__ is not Agg or E.path_of(v.ty) != 'core::cmp::Ordering': raise Stuck('result %r' % (v,))
    return {'Less': 'lt', 'Equal': 'eq', 'Greater': 'gt'}[E.T[v.ty]['v'][v.v]['n']]
def known(E, ex, cl, p, a, b):
    """the relations of a member that this exit allows."""
    d = dict(ex.st.g['m'])
    x, y = E.proj(ex.st, a, p), E.proj(ex.st, b, p)
    if x.__class__ is Int:
        out = []
        same = ex.st.f.truth(ex.st.f.cmp('Eq', x, y))
        if same is True: return ['eq']
        for r, op in (('lt', 'Lt'), ('eq', 'Eq'), ('gt', 'Gt')):
            if r == 'eq' and same is False: continue
            f = ex.st.f.copy()
            if f.assume(f.cmp(op, x, y), True) and f.lin_consistent(): out.append(r)
        return out
    if one_value(E, x): return ['eq']
    r = d.get((p,))
    return ['lt', 'eq', 'gt'] if r is None else ['lt', 'gt'] if r == 'ne' else [r]
def expected(E, ex, cl, ty, ks, vals, what):
    """the set of results the exit may have to give (more than one: it has not looked at enough)."""
    if ks is not None and ks[0] != ks[1]: return {'eq': {False}, 'cmp': {'lt' if ks[0] < ks[1] else 'gt'}}[what]
    k = ks[0] if ks is not None else 0
    out = set(); go = True
    if what == 'eq':
        rs = [known(E, ex, cl, p, *vals) for _, p in members(E, ty, k)]
        if any('eq' not in r for r in rs): return {False}
        return {True} if all(r == ['eq'] for r in rs) else {True, False}
    for _, p in members(E, ty, k):
        r = known(E, ex, cl, p, *vals)
        out |= set(r) - {'eq'}
        if 'eq' not in r: go = False; break
    if go: out.add('eq')
    return out

def check(P, key, ty, m):
    viol = []; stats = {'exits': 0, 'steps': 0, 'analysed': set()}
    cl = ValueClient(); E = Engine(P, cl, unroll=12)
    name = short(P.ts(ty))
    for ks, vals in pairs(E, ty, m not in ('clone', 'hash')):
        cl.roots = tuple(('X', ('value', i), ty) for i in range(2))
        mem = {r: v for r, v in zip(cl.roots, vals)}
        args = [Ref(r) for r in cl.roots][:1 if m in ('clone', 'hash') else 2]
        if m == 'hash': args.append(E.mk(P.bodies[key]['locals'][2], ('hasher',)))
        exits = E.run(key, args, {'m': ()}, mem=mem)
        viol += [v for v in cl.viol if v not in viol]
        stats['exits'] += len(exits); stats['steps'] += E.steps; stats['analysed'] |= E.analysed
        for ex in exits:
            if ex.kind != 'ret': viol.append(('stuck' if ex.kind == 'stuck' else 'panic', str(ex.val), ex.span)); continue
            try:
                if m == 'hash': continue
                if m == 'clone':
                    if not alike(E, ex.st, ex.val, vals[0]): viol.append(('value', 'the clone of a %s differs from it: %r' % (name, ex.val), ex.span))
                    continue
                want = expected(E, ex, cl, ty, ks, vals, 'eq' if m in ('eq', 'ne') else 'cmp')
                if m in ('eq', 'ne'):
                    got = ex.st.f.truth(ex.val) if ex.val.__class__ is Int else None
                    if got is None:
                        # the answer is the last comparison itself
                        got = answer(E, ex, cl, ty, ks, vals)
                        if got is None: raise Stuck('result %r' % (ex.val,))
                        if got is not True: viol.append(('value', got, ex.span))
                        continue
                    if m == 'ne': got = not got
                else: got = ordering(E, ex.val)
                if want != {got}: viol.append(('value', 'the comparison of two %s yields %s where their members may call for %s' % (name, got, ' or '.join(map(str, sorted(want)))), ex.span))
            except Stuck as e: viol.append(('stuck', str(e), ex.span))
    stats['analysed'] = sorted(stats['analysed'])
    if not stats['exits'] and not viol: viol.append(('value', 'never returns', None))
    out = []
    for v in viol:
        if v not in out: out.append(v)
    return out, stats
def answer(E, ex, cl, ty, ks, vals):
    """the result is an undecided condition: both its outcomes are checked."""
    if ex.val.__class__ is not Int: return None
    for t in (True, False):
        st = ex.st.fork()
        if not st.f.assume(ex.val, t) or not st.f.lin_consistent(): continue
        class X: pass
        x = X(); x.st = st
        w = expected(E, x, cl, ty, ks, vals, 'eq')
        if w != {t}: return 'the comparison yields %s where the members may call for %s' % (t, ' or '.join(map(str, sorted(w))))
    return True
def alike(E, st, x, y):
    if x == y: return True
    if x is None or y is None: return False
    if x.__class__ is Int or y.__class__ is Int:
        return x.__class__ is y.__class__ is Int and st.f.truth(st.f.cmp('Eq', x, y)) is True
    if x.__class__ is Agg or y.__class__ is Agg:
        if x.__class__ not in (Agg, Opq) or y.__class__ not in (Agg, Opq): return False
        k = x.v if x.__class__ is Agg else y.v
        if x.__class__ is Agg and y.__class__ is Agg and x.v != y.v: return False
        if E.is_enum(x.ty) and (E.known_variant(st, x) != k or E.known_variant(st, y) != k): return False
        if x.__class__ is Opq: x = E.expand(st, x, k)
        if y.__class__ is Opq: y = E.expand(st, y, k)
        return len(x.f) == len(y.f) and all(alike(E, st, a, b) for a, b in zip(x.f, y.f))
    return E.term(x) == E.term(y)
