"""Abstract interpreter over MIR.

One forward dataflow analysis: abstract states (memory of abstract values, branch facts, client
typestate) flow through the control-flow graphs, inlining resolved calls, joined at merge points and
generalised at loop heads to a post-fixpoint.  Nothing of the analysed crate is executed."""
import heapq
import progress
from domain import Int, Facts, C, B, TRUE, FALSE, mksym, cond, wrap, trange, lin_add, lin_of, lin_scale, skey, BASE

class Stuck(Exception):
    """the abstract semantics does not cover a construct: the caller must fail closed."""

class SplitOn(Stuck):
    """the statement needs the value of a table index: redo it once per possible value."""
    def __init__(self, i, n):
        Stuck.__init__(self, 'symbolic index %r into a fixed array' % (i,))
        self.i = i; self.n = n

class Agg:
    __slots__ = ('ty', 'v', 'f', '_h')
    def __init__(self, ty, v, f): self.ty = ty; self.v = v; self.f = f; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash(('A', self.v, self.f))
        return self._h
    def __eq__(self, o): return self is o or (o.__class__ is Agg and self.v == o.v and hash(self) == hash(o) and self.f == o.f)
    def __ne__(self, o): return not self == o
    def __repr__(self): return 'v%d(%s)' % (self.v, ', '.join(map(repr, self.f)))
class Opq:
    __slots__ = ('ty', 't', '_h')
    def __init__(self, ty, t): self.ty = ty; self.t = t; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash(('O', self.t))
        return self._h
    def __eq__(self, o): return self is o or (o.__class__ is Opq and hash(self) == hash(o) and self.t == o.t)
    def __ne__(self, o): return not self == o
    def __repr__(self): return '<%s>' % (tstr(self.t),)
class Ref:
    """reference / box / raw pointer: a place, with (start, len) when it is a slice."""
    __slots__ = ('r', 'p', 'm', '_h')
    def __init__(self, r, p=(), m=None): self.r = r; self.p = p; self.m = m; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash(('R', self.r, self.p, self.m))
        return self._h
    def __eq__(self, o): return self is o or (o.__class__ is Ref and self.r == o.r and self.p == o.p and self.m == o.m)
    def __ne__(self, o): return not self == o
    def __repr__(self): return '&%s%s%s' % (tstr(self.r), ''.join('.' + str(x) for x in self.p), '' if self.m is None else '[%r;%r]' % self.m)
class Seq:
    """a sequence built of segments: ('e', value) one element, ('s', term, len Int) an unknown run."""
    __slots__ = ('ty', 's', 'cap', '_h')
    def __init__(self, ty, s, cap=None): self.ty = ty; self.s = s; self.cap = cap; self._h = None   # cap: capacity known to be reserved
    def __hash__(self):
        if self._h is None: self._h = hash(('S', self.s))
        return self._h
    def __eq__(self, o): return self is o or (o.__class__ is Seq and self.s == o.s and self.cap == o.cap)
    def __ne__(self, o): return not self == o
    def __repr__(self): return 'seq[%s]' % ', '.join(repr(x[1]) if x[0] == 'e' else '%s..%r' % (tstr(x[1]), x[2]) for x in self.s)
class Fut:
    """an unstarted future of an effect operation."""
    __slots__ = ('c', 'a', 'out', '_h')
    def __init__(self, c, a, out): self.c = c; self.a = a; self.out = out; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash(('F', self.c, self.a))
        return self._h
    def __eq__(self, o): return self is o or (o.__class__ is Fut and self.c == o.c and self.a == o.a)
    def __ne__(self, o): return not self == o
    def __repr__(self): return 'fut(%s%r)' % (self.c, self.a)
class FnV:
    __slots__ = ('ty',)
    def __init__(self, ty): self.ty = ty
    def __hash__(self): return hash(('fn', self.ty))
    def __eq__(self, o): return o.__class__ is FnV and o.ty == self.ty
    def __repr__(self): return 'fn#%s' % self.ty

def tstr(t):
    if isinstance(t, tuple): return '(' + ' '.join(tstr(x) for x in t) + ')'
    return str(t)

UNIT = Agg(None, 0, ())
LENMAX = (1 << 63) - 1

class Frame:
    __slots__ = ('k', 'bb', 'dest', 'nxt', 'wrap', 'dty')
    def __init__(self, k, bb, dest, nxt, wrap, dty): self.k = k; self.bb = bb; self.dest = dest; self.nxt = nxt; self.wrap = wrap; self.dty = dty

class State:
    __slots__ = ('fr', 'mem', 'f', 'g', 'jp')
    def __init__(self, fr, mem, f, g): self.fr = fr; self.mem = mem; self.f = f; self.g = g; self.jp = None
    def fork(self):
        s = State(self.fr, dict(self.mem), self.f.copy(), dict(self.g))
        return s

class Exit:
    def __init__(self, kind, st, val, span, stack): self.kind = kind; self.st = st; self.val = val; self.span = span; self.stack = stack
    def __repr__(self): return '%s %r @%s' % (self.kind, self.val, self.span)

FIXED = {'core::ops::range::Range': (0, 1), 'core::ops::index_range::IndexRange': (0, 1), 'core::ops::range::RangeInclusive': (0, 1),
         'core::slice::iter::Iter': (1, 2), 'core::slice::iter::IterMut': (1, 2)}
class HeadInfo:
    def __init__(self): self.seen = []; self.n = {}

# --- symbol occurrence -------------------------------------------------------
_occ = {}
def occ(x):
    """set of ground names (tuples tagged 'ev','phi','jn','heap') occurring in a value, fact key or term."""
    c = x.__class__
    if c in (int, str, bool, type(None), float): return EMPTY
    try: r = _occ.get(x)
    except TypeError: r = None
    if r is not None: return r
    if c is tuple:
        s = set()
        if x and x[0] in ('ev', 'phi', 'jn', 'heap', 'X'): s.add(x)
        for y in x:
            if y.__class__ not in (int, str): s |= occ(y)
    elif c is Int:
        s = occ(x.x) if x.k != 'c' else EMPTY
    elif c is Agg:
        s = set()
        for y in x.f: s |= occ(y)
    elif c is Opq: s = occ(x.t)
    elif c is Ref: s = set(occ(x.r)) | occ(x.m) | occ(x.p)
    elif c is Seq: s = occ(x.s)
    elif c is Fut: s = occ(x.a)
    elif c is frozenset:
        s = set()
        for y in x: s |= occ(y)
    else: s = EMPTY
    s = frozenset(s) if s else EMPTY
    try: _occ[x] = s
    except TypeError: pass
    return s
EMPTY = frozenset()

def subst(x, m):
    """replace names (exact sub-terms) by the mapping m."""
    c = x.__class__
    if c in (int, str, bool, type(None), float): return x
    if c is tuple:
        try:
            if x in m: return m[x]
        except TypeError: pass
        if not (occ(x) & m.keys()) and not any_in(x, m): return x
        return tuple(subst(y, m) for y in x)
    if c is Int:
        if x.k == 'c': return x
        return norm_int(Int(x.w, x.sg, x.k, subst(x.x, m)))
    if c is Agg: return Agg(x.ty, x.v, tuple(subst(y, m) for y in x.f))
    if c is Opq: return Opq(x.ty, subst(x.t, m))
    if c is Ref: return Ref(subst(x.r, m), subst(x.p, m), subst(x.m, m))
    if c is Seq: return Seq(x.ty, subst(x.s, m))
    if c is Fut: return Fut(x.c, subst(x.a, m), x.out)
    if c is frozenset: return frozenset(subst(y, m) for y in x)
    return x
def any_in(x, m): return True
def norm_int(v):
    if v.k == 'l': return Int(v.w, v.sg, 'l', lin_add(v.x, (0, ())))
    return v

class Engine:
    MAX_STEPS = 60000
    def __init__(self, prog, client, unroll=2):
        self.P = prog; self.T = prog.T; self.cl = client; self.unroll = unroll
        self.exits = []; self.steps = 0; self.calls_seen = {}
        self.templates = {}; self.new_templates = False
        self.locids = {}; self.analysed = set()
        self.span = None
        import models
        self.models = models

    # --- types
    def variants(self, ty): return self.T[ty].get('v') if ty is not None else None
    def is_enum(self, ty): return ty is not None and self.T[ty]['k'] == 'adt' and self.T[ty]['adt'] == 'enum'
    def field_ty(self, ty, v, i):
        t = self.T[ty]; k = t['k']
        if k == 'adt':
            if 'v' not in t: return None
            return t['v'][v]['f'][i][1]
        if k in ('tuple', 'closure', 'coroutine'): return t['f'][i]
        if k in ('array', 'slice'): return t['e']
        return None
    def variant_index(self, ty, name):
        for i, v in enumerate(self.T[ty]['v']):
            if v['n'] == name: return i
        raise Stuck('no variant %s in %s' % (name, self.T[ty]['s']))
    def enum(self, ty, name, *f): return Agg(ty, self.variant_index(ty, name), tuple(f))
    def ok(self, ty, v): return self.enum(ty, 'Ok', v)
    def err(self, ty, v): return self.enum(ty, 'Err', v)
    def payload_ty(self, ty, name): return self.T[ty]['v'][self.variant_index(ty, name)]['f'][0][1]
    def path_of(self, ty): return self.T[ty].get('path') if ty is not None else None

    def mk(self, ty, term):
        if ty is None: return Opq(None, term)
        t = self.T[ty]; k = t['k']
        if k == 'bool': return mksym(term, 1, False)
        if k == 'int': return mksym(term, t['w'], t['sg'])
        if k == 'char': return mksym(term, 32, False)
        if k == 'tuple': return Agg(ty, 0, tuple(self.mk(x, ('fld', term, 0, i)) for i, x in enumerate(t['f'])))
        if k in ('ref', 'ptr'): return self.mkref(t['e'], ('*', term))
        if k == 'adt':
            if t['path'] == 'alloc::boxed::Box': return self.mkref(t['args'][0], ('*', term))
            if t['adt'] == 'struct' and 'v' in t and not t['v'][0]['f']: return Agg(ty, 0, ())
            return Opq(ty, term)
        if k == 'fndef': return FnV(ty)
        if k == 'array' and t['len'] is not None and t['len'] <= 64:
            return Agg(ty, 0, tuple(self.mk(t['e'], ('idx', term, i)) for i in range(t['len'])))
        return Opq(ty, term)
    def mkref(self, ety, term):
        r = ('X', term, ety)
        if self.T[ety]['k'] == 'slice': return Ref(r, (), (C(0, 64, False), self.seq_len_t(term)))
        return Ref(r)
    def seq_len_t(self, t):
        if isinstance(t, tuple) and t and t[0] == 'lit': return C(len(t[1].encode()) if isinstance(t[1], str) else len(t[1]), 64, False)
        if isinstance(t, tuple) and t and t[0] == 'seqt': # canonical term of a segmented sequence
            return self.seq_len(Seq(None, t[1]))
        s = (('len', t), 64, False)
        BASE[s] = (0, LENMAX)
        return Int(64, False, 'l', (0, ((s, 1),)))
    def seq_len(self, v, f=None):
        """number of elements of a sequence-like value."""
        if v.__class__ is Agg: return C(len(v.f), 64, False)
        if v.__class__ is Int: return C(1, 64, False)     # slice::from_ref / from_mut of a number
        if v.__class__ is Opq: return self.seq_len_t(v.t)
        if v.__class__ is Seq:
            x = (0, ())
            for s in v.s: x = lin_add(x, (1, ()) if s[0] == 'e' else self.need_lin(s[2]))
            return C(x[0], 64, False) if not x[1] else Int(64, False, 'l', x)
        raise Stuck('length of %r' % (v,))
    def need_lin(self, v):
        l = lin_of(v)
        if l is None: raise Stuck('non affine length %r' % (v,))
        return l
    def term(self, v):
        """canonical term of a value."""
        c = v.__class__
        if c is Opq: return v.t
        if c is Agg: return ('agg', v.v) + tuple(self.term(x) for x in v.f)
        if c is Seq:
            if len(v.s) == 1 and v.s[0][0] == 's' and v.s[0][2] == self.seq_len_t(v.s[0][1]): return v.s[0][1]
            return ('seqt', v.s)
        return v

    # --- memory
    def read(self, st, lv):
        r, p = lv
        v = self.region(st, r)
        for e in p: v = self.proj(st, v, e)
        return v
    def region(self, st, r):
        v = st.mem.get(r)
        if v is None:
            if r[0] == 'X': return self.mk(r[2], r[1])
            if r[0] == 'lit': return Opq(None, r)
            if r[0] == 'const': return r[1]
            raise Stuck('read of uninitialised or dead place %s' % (tstr(r),))
        return v
    def proj(self, st, v, e):
        if v is None: raise Stuck('read through uninitialised value')
        c = v.__class__
        if e.__class__ is Int: return self.elem(st, v, e)
        if c is Agg:
            if e[0] != v.v:
                raise Stuck('field of inactive variant')
            if e[1] >= len(v.f): raise Stuck('no field %d in %r' % (e[1], v))
            r = v.f[e[1]]
            if r is None: raise Stuck('read of moved-out field')
            return r
        if c is Opq:
            if v.ty is None: raise Stuck('field of untyped value %r' % (v,))
            h = self.cl.project(self, st, v, e)
            if h is not None: return h
            ft = self.field_ty(v.ty, e[0], e[1])
            return self.mk(ft, ('fld', v.t, e[0], e[1]))
        if c is Ref: return v     # newtype wrappers of pointers (NonNull, Unique)
        raise Stuck('projection %r of %r' % (e, v))
    def elem(self, st, v, i):
        i = st.f.simp(i)
        c = v.__class__
        if c is Agg:
            if i.k != 'c': raise SplitOn(i, len(v.f))
            if not 0 <= i.x < len(v.f): raise Stuck('index out of bounds')
            r = v.f[i.x]
            if r is None: raise Stuck('read of moved-out element')
            return r
        if c is Int and i.k == 'c' and i.x == 0: return v
        if c is Opq:
            if v.t and v.t[0] == 'lit' and i.k == 'c':
                b = v.t[1].encode() if isinstance(v.t[1], str) else v.t[1]
                if not 0 <= i.x < len(b): raise Stuck('index out of bounds')
                return C(b[i.x], 8, False)
            if v.t and v.t[0] == 'lit' and len(v.t[1]) <= 256: raise SplitOn(i, len(v.t[1]))
            ety = self.elem_ty(v.ty)
            return self.mk(ety, ('idx', v.t, self.ikey(i)))
        if c is Seq:
            if len(v.s) == 1 and v.s[0][0] == 's':
                return self.elem(st, Opq(v.ty, v.s[0][1]), i)
            if i.k == 'c':
                k = i.x
                for s in v.s:
                    if s[0] == 'e':
                        if k == 0: return s[1]
                        k -= 1
                    else:
                        n = st.f.simp(s[2])
                        if n.k != 'c':
                            lo, hi = st.f.range(n)
                            if k < lo: return self.elem(st, Opq(v.ty, s[1]), C(k, 64, False))
                            raise Stuck('index into unknown run')
                        if k < n.x: return self.elem(st, Opq(v.ty, s[1]), C(k, 64, False))
                        k -= n.x
            raise Stuck('index %r into %r' % (i, v))
        raise Stuck('index of %r' % (v,))
    def ikey(self, i):
        return i.x if i.k == 'c' else i.x
    def elem_ty(self, ty):
        if ty is None: return None
        t = self.T[ty]
        if t['k'] in ('array', 'slice'): return t['e']
        if t['k'] == 'adt' and t['path'] == 'alloc::vec::Vec': return t['args'][0]
        if t['k'] in ('ref', 'ptr'): return self.elem_ty(t['e'])
        return None
    def write(self, st, lv, val):
        r, p = lv
        if not p:
            st.mem[r] = val
            return
        if r in st.mem: cur = st.mem[r]
        else:
            cur = self.region(st, r) if r[0] == 'X' else None
        st.mem[r] = self.upd(st, cur, p, val)
    def upd(self, st, v, p, val):
        if not p: return val
        e = p[0]
        if e.__class__ is Int:
            i = st.f.simp(e)
            if v.__class__ is Int and i.k == 'c' and i.x == 0 and len(p) == 1: return val
            if v.__class__ is Agg and i.k == 'c':
                if not 0 <= i.x < len(v.f): raise Stuck('index out of bounds')
                f = list(v.f); f[i.x] = self.upd(st, f[i.x], p[1:], val)
                return Agg(v.ty, v.v, tuple(f))
            if v.__class__ is Seq and i.k == 'c' and all(s[0] == 'e' for s in v.s) and i.x < len(v.s):
                s = list(v.s); s[i.x] = ('e', self.upd(st, s[i.x][1], p[1:], val))
                return Seq(v.ty, tuple(s))
            raise Stuck('indexed store into %r' % (v,))
        if v.__class__ is Opq: v = self.expand(st, v, e[0])
        if v is None:
            v = Agg(None, e[0], ())
        if v.__class__ is not Agg: raise Stuck('store into %r' % (v,))
        f = list(v.f)
        while len(f) <= e[1]: f.append(None)
        f[e[1]] = self.upd(st, f[e[1]], p[1:], val)
        return Agg(v.ty, e[0], tuple(f))
    def record(self, ty):
        t = None if ty is None else self.T[ty]
        return t is not None and (t['k'] == 'tuple' or t['k'] == 'adt' and len(t.get('v', ())) == 1)
    def expand(self, st, v, variant=0):
        t = self.T[v.ty]
        if t['k'] == 'adt' and 'v' in t: n = len(t['v'][variant]['f'])
        elif t['k'] in ('tuple', 'closure', 'coroutine'): n = len(t['f'])
        else: raise Stuck('expand %r' % (v,))
        return Agg(v.ty, variant, tuple(self.proj(st, v, (variant, i)) for i in range(n)))

    def lplace(self, st, p):
        """resolve a MIR place to (region, path, slice meta of the last deref)."""
        d = len(st.fr) - 1
        r = ('L', d, p[0]); path = (); meta = None; var = 0
        for e in p[1:]:
            if e == '*':
                v = self.read(st, (r, path))
                while v.__class__ is Agg and len([x for x in v.f if x is not UNIT]) >= 1 and v.f and v.f[0].__class__ in (Ref, Agg) and v.f[0].__class__ is not Opq: v = v.f[0]
                if v.__class__ is not Ref: raise Stuck('deref of %r' % (v,))
                r, path, meta = v.r, v.p, v.m; var = 0
            elif e[0] == 'f':
                path = path + ((var, e[1]),); var = 0; meta = None
            elif e[0] == 'd': var = e[1]
            elif e[0] == 'i':
                i = self.read(st, (('L', d, e[1]), ()))
                path = path + (self.off(st, meta, i),); meta = None
            elif e[0] == 'ci':
                if meta is None:
                    base = self.read(st, (r, path)); n = self.seq_len(base)
                else: n = meta[1]
                i = C(e[1], 64, False) if not e[3] else st.f.binop('Sub', n, C(e[1], 64, False))
                path = path + (self.off(st, meta, i),); meta = None
            elif e[0] == 'ss':
                if meta is None: meta = (C(0, 64, False), self.seq_len(self.read(st, (r, path))))
                a = st.f.binop('Add', meta[0], C(e[1], 64, False))
                n = meta[1]
                n = C(e[2] - e[1], 64, False) if not e[3] else st.f.binop('Sub', n, C(e[1] + e[2], 64, False))
                meta = (a, n)
            elif e[0] == 'oc': pass
        return r, path, meta
    def off(self, st, meta, i):
        if meta is None: return i
        r = st.f.binop('Add', meta[0], i)
        return r

    # --- operands
    def const(self, v, st):
        k = v[0]
        if k == 'int':
            t = self.T[v[1]]; n = int(v[2])
            if t['k'] == 'bool': return B(n)
            if t['k'] == 'char': return C(n, 32, False)
            if t['k'] == 'float': return Opq(v[1], ('flt', n))
            return C(n, t['w'], t['sg'])
        if k == 'agg': return Agg(v[1], v[2], tuple(self.const(x, st) for x in v[3]))
        if k == 'zst':
            t = self.T[v[1]]
            if t['k'] == 'fndef': return FnV(v[1])
            return Agg(v[1], 0, ())
        if k == 'str':
            return Ref(('lit', v[2]))
        if k == 'bytes':
            b = tuple(v[2])
            return Ref(('lit', bytes(b)), (), (C(0, 64, False), C(len(b), 64, False)))
        if k == 'ref':
            return Ref(('const', self.const(v[2], st)))
        if k == 'slice':
            f = tuple(self.const(x, st) for x in v[2])
            return Ref(('const', Agg(None, 0, f)), (), (C(0, 64, False), C(len(f), 64, False)))
        if k == 'generic':
            return self.mk(v[1], ('generic', v[2]))
        if k == 'opaque':
            if len(v) < 2: return Opq(None, ('const?',))
            return self.mk(v[1], ('const?', v[1]))
        raise Stuck('constant %s' % (v,))
    def operand(self, st, o):
        k = o[0]
        if k == 'k': return self.const(o[1], st)
        if k == 'rt': return FALSE
        r, p, m = self.lplace(st, o[1])
        v = self.read(st, (r, p))
        if v is None: raise Stuck('use of uninitialised value')
        if k == 'm' and r[0] == 'L': self.undo.append((r, st.mem.get(r)))
        if k == 'm' and not p and r[0] == 'L': st.mem.pop(r, None)
        elif k == 'm' and p and r[0] == 'L' and v.__class__ is not Int:
            self.take(st, r, p)
        return v
    def take(self, st, r, p):
        """a field is moved out of a local: mark it so that stale contents do not linger."""
        cur = st.mem.get(r)
        x = cur
        for e in p:
            if e.__class__ is Int or x.__class__ is not Agg or e[0] != x.v: return
            x = x.f[e[1]]
        st.mem[r] = self.upd(st, cur, p, None)

    def discr(self, st, v, w=64, sg=True):
        if v is None: raise Stuck('discriminant of uninitialised')
        if v.__class__ is Agg:
            if not self.is_enum(v.ty): return C(v.v, w, sg)
            d = self.T[v.ty]['v'][v.v]['d']
            return C(wrap(d, w, sg), w, sg)
        if v.__class__ is Opq:
            t = self.T[v.ty]
            if t['k'] != 'adt' or 'v' not in t: raise Stuck('discriminant of %s' % t['s'])
            ds = [x['d'] for x in t['v']]
            if len(ds) == 1: return C(ds[0], w, sg)
            if not ds: raise Stuck('discriminant of uninhabited')
            s = (('discr', v.t), 64, True)
            BASE[s] = (min(ds), max(ds))
            for x in range(min(ds), min(max(ds), min(ds) + 300) + 1):
                if x not in ds: st.f.assume(cond('eq', Int(64, True, 'l', (0, ((s, 1),))), C(x, 64, True)), False)
            return st.f.cast(st.f.simp(Int(64, True, 'l', (0, ((s, 1),)))), w, sg)
        raise Stuck('discriminant of %r' % (v,))
    def known_variant(self, st, v):
        if v.__class__ is Agg: return v.v
        d = self.discr(st, v)
        if d.k != 'c': return None
        for i, x in enumerate(self.T[v.ty]['v']):
            if x['d'] == d.x: return i
        return None
    def in_range_variants(self, st, v):
        out = []
        for i, x in enumerate(self.T[v.ty]['v']):
            f = st.f.copy()
            if v.__class__ is Agg:
                if v.v == i: out.append(i)
                continue
            d = self.discr(st, v)
            if f.assume(f.cmp('Eq', d, C(x['d'], 64, True)), True): out.append(i)
        return out
    def split(self, st, v):
        """fork on the variant of an enum value: [(state, variant)]"""
        k = self.known_variant(st, v)
        if k is not None: return [(st, k)]
        out = []
        for i, x in enumerate(self.T[v.ty]['v']):
            s = st.fork()
            d = self.discr(s, v)
            if s.f.assume(s.f.cmp('Eq', d, C(x['d'], 64, True)), True): out.append((s, i))
        return out

    # --- rvalues
    def rvalue(self, st, body, rv, dty):
        k = rv[0]
        if k == 'use': return self.operand(st, rv[1])
        if k == 'ref':
            r, p, m = self.lplace(st, rv[1])
            return Ref(r, p, m)
        if k == 'discr':
            r, p, m = self.lplace(st, rv[1])
            if not p and r not in st.mem and r[0] == 'L':
                # a zero-sized place (Option<!>) has only one value; optimised code does not store it
                pt = self.T[self.P.bodies[st.fr[r[1]].k]['locals'][r[2]]]
                if pt['k'] == 'adt' and pt.get('size') == 0 and pt.get('adt') == 'enum':
                    live = [x for x in pt['v'] if not any(self.T[f[1]]['k'] == 'never' or (self.T[f[1]].get('adt') == 'enum' and not self.T[f[1]].get('v', 1)) for f in x['f'])]
                    if len(live) == 1: return C(live[0]['d'], self.T[dty]['w'] if dty is not None else 64, self.T[dty]['sg'] if dty is not None else True)
            v = self.read(st, (r, p))
            t = self.T[dty] if dty is not None else {'k': 'int', 'w': 64, 'sg': True}
            return self.discr(st, v, t.get('w', 64), t.get('sg', True))
        if k == 'agg':
            kind, ty, vi, ops = rv[1], rv[2], rv[3], rv[4]
            vals = tuple(self.operand(st, o) for o in ops)
            if kind == 'rawptr': return vals[0] if vals[1].__class__ is not Int else self.with_meta(vals[0], vals[1])
            if kind == 'array': return Agg(dty, 0, vals)
            if kind == 'tuple': return Agg(dty, 0, vals) if vals else UNIT
            if kind == 'other': raise Stuck('aggregate')
            return Agg(ty, vi, vals)
        if k == 'bin':
            a = self.operand(st, rv[2]); b = self.operand(st, rv[3])
            return self.binop(st, rv[1], a, b, dty)
        if k == 'un':
            a = self.operand(st, rv[2])
            if rv[1] == 'PtrMetadata':
                if a.__class__ is Ref:
                    if a.m is not None: return a.m[1]
                    v = self.read(st, (a.r, a.p))
                    return self.seq_len(v)
                raise Stuck('metadata of %r' % (a,))
            if a.__class__ is Int: return st.f.unop(rv[1], a)
            return self.mk(dty, ('un', rv[1], self.term(a)))
        if k == 'cast': return self.cast(st, body, rv)
        if k == 'repeat':
            v = self.operand(st, rv[1])
            if rv[2] is None: raise Stuck('repeat of unknown length')
            return Agg(dty, 0, (v,) * rv[2])
        raise Stuck('rvalue %s' % (rv[1:2],))
    def with_meta(self, p, n): return Ref(p.r, p.p, (p.m[0] if p.m else C(0, 64, False), n))
    def binop(self, st, op, a, b, dty):
        if a.__class__ is Int and b.__class__ is Int:
            if op == 'Cmp':
                return ('fork3', a, b)
            r = st.f.binop(op, a, b)
            if r is None: raise Stuck('binop ' + op)
            if isinstance(r, tuple): return Agg(dty, 0, r)
            if op in ('Shl', 'Shr') and b.k != 'c':
                pass
            return r
        if op in ('Eq', 'Ne') and a.__class__ is Agg and b.__class__ is Agg and not a.f and not b.f:
            return B((op == 'Eq') == (a.v == b.v))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a.__class__ is FnV or b.__class__ is FnV: raise Stuck('fn compare')
            return mksym(('cmp', op, self.term(a), self.term(b)), 1, False)
        if op == 'Offset': raise Stuck('pointer arithmetic')
        return self.mk(dty, ('bin', op, self.term(a), self.term(b)))
    def cast(self, st, body, rv):
        kind, ty = rv[1], rv[3]
        o = rv[2]
        v = self.operand(st, o)
        t = self.T[ty]
        if kind == 'IntToInt':
            if v.__class__ is not Int: v = self.discr(st, v)
            w, sg = (1, False) if t['k'] == 'bool' else (32, False) if t['k'] == 'char' else (t['w'], t['sg'])
            return st.f.cast(v, w, sg)
        if kind.startswith('PointerCoercion(Unsize'):
            if v.__class__ is Ref and t['k'] in ('ref', 'ptr') and self.T[t['e']]['k'] == 'slice' and v.m is None:
                a = self.read(st, (v.r, v.p))
                return Ref(v.r, v.p, (C(0, 64, False), self.seq_len(a)))
            return v
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'BoxDerefTransmute', 'FnPtrToPtr', 'Subtype'): return v
        if kind == 'Transmute':
            ety = self.T[ty].get('e') if self.T[ty].get('k') == 'array' else None
            if ety is not None and v.__class__ is Agg and self.T[v.ty].get('k') == 'array' and len(v.f) == self.T[ty].get('len'):
                def bare(x):        # elements of an array of `MaybeUninit`: the same ones without their wrappers
                    while x.__class__ is Agg and x.ty != ety and len(x.f) == 1: x = x.f[0]
                    return x
                xs = tuple(bare(x) for x in v.f)
                if all((x.ty == ety) if x.__class__ is Agg else getattr(x, 'ty', ety) == ety for x in xs): return Agg(ty, 0, xs)
            if v.__class__ is Int and t['k'] in ('int', 'bool', 'char'):
                return st.f.cast(v, t.get('w', 1), t.get('sg', False))
            if v.__class__ is Int and t['k'] == 'adt' and t.get('adt') == 'struct' and len(t.get('v', [{'f': []}])[0]['f']) == 1:
                return Agg(ty, 0, (v,))
            if v.__class__ is Agg and t['k'] == 'int' and len(v.f) == 1 and v.f[0].__class__ is Int:
                return st.f.cast(v.f[0], t['w'], t['sg'])
            return v
        return self.mk(ty, ('cast', kind, self.term(v)))

    # --- running
    def run(self, key, args, ghost, facts=None, mem=None, asyn=False):
        """analyse one entry point (polled to completion when it returns a future); exits accumulate in self.exits."""
        for attempt in range(5):
            self.exits = []; self.steps = 0; self.heads = {}; self.pend = {}; self.heap = []; self.new_templates = False
            self.cl.reset(self)
            st = State((), dict(mem or {}), (facts.copy() if facts else Facts()), dict(ghost))
            self.push_frame(st, key, list(args), None, None, 'future' if asyn else None, None)
            self.enqueue(st, False)
            self.loop()
            if not self.new_templates: break
        progress.check(self)
        return self.exits
    def push_frame(self, st, key, args, dest, nxt, wrapk, dty):
        b = self.P.bodies.get(key)
        if b is None or b.get('blocks') is None: raise Stuck('no body for ' + str(key))
        if len(st.fr) > 60: raise Stuck('call depth')
        n = sum(1 for f in st.fr if f.k == key)
        if n >= 3: raise Stuck('recursion through ' + b['path'])
        self.analysed.add(key)
        d = len(st.fr)
        st.fr = st.fr + (Frame(key, 0, dest, nxt, wrapk, dty),)
        for i, a in enumerate(args): st.mem[('L', d, i + 1)] = a

    def prio(self, st, back):
        out = []
        n = len(st.fr)
        for i, f in enumerate(st.fr):
            pos, heads, joins = self.P.cfg(f.k)
            if i == n - 1 and back: out.append(heads[f.bb])
            else: out.append(pos.get(f.bb, 0))
        return tuple(out)
    def loc(self, st): return tuple((f.k, f.bb) for f in st.fr)
    def locid(self, loc):
        i = self.locids.get(loc)
        if i is None: i = self.locids[loc] = len(self.locids)
        return i
    def enqueue(self, st, back):
        k = self.loc(st)
        p = self.prio(st, back)
        key = (p, k)
        if key not in self.pend:
            self.pend[key] = []
            heapq.heappush(self.heap, key)
        self.pend[key].append(st)
    def loop(self):
        while self.heap:
            key = heapq.heappop(self.heap)
            sts = self.pend.pop(key, None)
            if not sts: continue
            f = sts[0].fr[-1]
            pos, heads, joins = self.P.cfg(f.k)
            try:
                for s in sts: self.gc(s)
                if f.bb in heads: todo = self.at_head(key[1], sts)
                else: todo = self.join_all(key[1], sts)
            except Stuck as e:
                self.exit('stuck', sts[0], str(e)); continue
            for s in todo: self.go(s)
            if self.steps > self.MAX_STEPS:
                self.exit('stuck', sts[0], 'analysis budget exhausted'); return
    def exit(self, kind, st, val):
        e = Exit(kind, st, val, self.span, tuple((f.k, f.bb) for f in st.fr))
        self.exits.append(e)
        self.cl.on_exit(self, e)
    def go(self, s0):
        stack = [s0]
        while stack:
            st = stack.pop()
            self.steps += 1
            if self.steps > self.MAX_STEPS: return
            try: nxt = self.block(st)
            except Stuck as e:
                self.exit('stuck', st, str(e)); continue
            for s, back, jp in nxt:
                f = s.fr[-1]
                pos, heads, joins = self.P.cfg(f.k)
                if jp or f.bb in joins: self.enqueue(s, back and f.bb in heads)
                else: stack.append(s)
    def jump(self, st, bb):
        f = st.fr[-1]
        pos, heads, joins = self.P.cfg(f.k)
        back = bb in heads and pos.get(f.bb, -1) >= pos[bb]
        st.fr = st.fr[:-1] + (Frame(f.k, bb, f.dest, f.nxt, f.wrap, f.dty),)
        return (st, back, False)
    undo = []
    def split(self, st, e, at):
        """one state per value of a table index, each resuming at the statement that needs it."""
        for r, v in reversed(self.undo):
            if v is not None: st.mem[r] = v
        self.undo = []
        out = []
        for k in range(e.n):
            s2 = st.fork()
            if not s2.f.assume(s2.f.cmp('Eq', e.i, C(k, e.i.w, e.i.sg)), True): continue
            if s2.f.simp(e.i).k != 'c': raise Stuck(str(e))
            out += self.block(s2, at)
        return out
    def block(self, st, start=0):
        f = st.fr[-1]
        body = self.P.bodies[f.k]
        blk = body['blocks'][f.bb]
        d = len(st.fr) - 1
        for j in range(start, len(blk[0])):
            try: self.undo = []; self.stmt(st, body, blk[0][j], d)
            except SplitOn as e: return self.split(st, e, j)
        self.span = blk[2]
        self.undo = []; self.splittable = True
        try: return self.term_(st, body, blk[1])
        except SplitOn as e:
            if not self.splittable: raise
            return self.split(st, e, len(blk[0]))
    def stmt(self, st, body, s, d):
            k = s[0]
            if k == '=':
                self.span = s[3]
                dty = self.P.place_ty(body, s[1])
                v = self.rvalue(st, body, s[2], dty)
                self.assign(st, s[1], v)
            elif k == 'sd': st.mem.pop(('L', d, s[1]), None)
            elif k == 'setd':
                r, p, m = self.lplace(st, s[1])
                cur = self.read(st, (r, p))
                if cur.__class__ is Agg: self.write(st, (r, p), Agg(cur.ty, s[2], cur.f))
                else: raise Stuck('set discriminant')
    def assign(self, st, p, v):
        r, path, m = self.lplace(st, p)
        self.write(st, (r, path), v)
    def term_(self, st, body, t):
        k = t[0]
        if k == 'goto': return [self.jump(st, t[1])]
        if k == 'ret': return self.do_ret(st)
        if k == 'drop':
            r, p, m = None, None, None
            if len(t) > 2 and len(t[2]) == 1: st.mem.pop(('L', len(st.fr) - 1, t[2][0]), None)
            return [self.jump(st, t[1])]
        if k == 'switch': return self.do_switch(st, t)
        if k == 'call': return self.do_call(st, body, t)
        if k == 'assert':
            v = self.operand(st, t[1])
            out = []
            tr = st.f.truth(v)
            if tr is None:
                self.by_value(st, v)
                s2 = st.fork()
                if s2.f.assume(v, not t[2]): self.cl.on_panic(self, s2, t[3], t[5])
                self.note_template(v)
                if not st.f.assume(v, t[2]): return []
            elif tr != t[2]:
                self.cl.on_panic(self, st, t[3], t[5]); return []
            return [self.jump(st, t[4])]
        if k == 'unreach':
            self.cl.on_unreachable(self, st); return []
        if k == 'yield':
            return []
        raise Stuck('terminator ' + k)
    def by_value(self, st, v):
        """a comparison no set of known bits expresses, of a number with few unknown bits: decided value by value."""
        while v.__class__ is Int and v.k == 'q' and v.x[0] == 'not': v = v.x[1]
        if v.__class__ is not Int or v.k != 'q' or v.x[0] != 'lt': return
        a, b = st.f.simp(v.x[1]), st.f.simp(v.x[2])
        h = st.f.threshold(a, b)
        if h is None or st.f.high(a, b) is not None: return
        bs = st.f.bits(h[0])
        if sum(x not in (0, 1) for x in bs) > 4 or st.f.conj(bs, h[1], True) is not None or st.f.conj(bs, h[1], False) is not None: return
        hi = st.f.range(h[0])[1]
        if hi < 64: raise SplitOn(h[0], hi + 1)
    def panic(self, st, msg): self.cl.on_panic(self, st, 'panic', msg)
    def note_template(self, v):
        while v.__class__ is Int and v.k == 'q' and v.x[0] == 'not': v = v.x[1]
        if v.__class__ is Int and v.k == 'q' and v.x[0] in ('lt', 'eq'):
            a, b = lin_of(v.x[1]), lin_of(v.x[2])
            if a is None or b is None: return
            x = lin_add(a, b, -1)
            if len(x[1]) < 2: return
            for s, c in x[1]:
                if isinstance(s[0], tuple) and s[0][0] == 'phi':
                    ts = self.templates.setdefault(s[0][1], set())
                    key = x[1]
                    if key not in ts and len(ts) < 12:
                        ts.add(key); self.new_templates = True
    def do_switch(self, st, t):
        v = self.operand(st, t[1])
        if v.__class__ is not Int: raise Stuck('switch on %r' % (v,))
        v = st.f.simp(v)
        ty = self.T[t[2]]
        w, sg = (1, False) if ty['k'] == 'bool' else (32, False) if ty['k'] == 'char' else (ty['w'], ty['sg'])
        if v.k == 'c':
            for val, bb in t[3]:
                if wrap(int(val), w, sg) == v.x: return [self.jump(st, bb)]
            return [self.jump(st, t[4])]
        self.note_template(v)
        if v.k == 'q' and st.f.truth(v) is None: self.by_value(st, v)
        out = []
        oq, want = v, True
        while oq.k == 'q' and oq.x[0] == 'not': oq, want = oq.x[1], not want
        if oq.k == 'q' and oq.x[0] == 'ovf' and st.f.truth(oq) is None:
            # in range, above it, or below it
            to = lambda x: next((bb for val, bb in t[3] if int(val) == x), t[4])
            lo, hi = st.f.lrange(oq.x[1]); tl, th = trange(oq.x[2], oq.x[3])
            over, under = st.fork(), st.fork()
            if st.f.set_range(oq.x[1], tl, th): out.append(self.jump(st, to(int(not want))))
            if hi > th and over.f.set_range(oq.x[1], th + 1, hi): out.append(self.jump(over, to(int(want))))
            if lo < tl and under.f.set_range(oq.x[1], lo, tl - 1): out.append(self.jump(under, to(int(want))))
            return out
        rest = st
        dead = False
        for val, bb in t[3]:
            c = C(wrap(int(val), w, sg), w, sg)
            q = rest.f.cmp('Eq', v, c) if w > 1 else (v if c.x else rest.f.unop('Not', v))
            tr = rest.f.truth(q)
            if tr is False: continue
            s2 = rest.fork()
            if s2.f.assume(q, True): out.append(self.jump(s2, bb))
            if tr is True: dead = True; break
            if not rest.f.assume(q, False): dead = True; break
        if not dead: out.append(self.jump(rest, t[4]))
        return out
    def do_ret(self, st):
        f = st.fr[-1]; d = len(st.fr) - 1
        v = st.mem.get(('L', d, 0))
        if v is None: v = UNIT
        if d == 0:
            if f.wrap == 'future': return self.poll_root(st, v)
            self.exit('ret', st, v)
            return []
        for r in [r for r in st.mem if r[0] == 'L' and r[1] == d]: del st.mem[r]
        st.fr = st.fr[:-1]
        if f.wrap == 'poll': v = self.enum(f.dty, 'Ready', v)
        if f.dest is not None: self.write(st, f.dest, v)
        if f.nxt is None: return []
        s, back, _ = self.jump(st, f.nxt)
        return [(s, back, True)]
    def do_call(self, st, body, t):
        c, ops, dplace, target = t[1], t[2], t[3], t[4]
        args = [self.operand(st, o) for o in ops]
        rty = self.P.place_ty(body, dplace)
        r, p, m = self.lplace(st, dplace)
        self.splittable = False
        return self.call(st, c, args, (r, p), target, rty)
    def done(self, st, dest, target, v):
        if v is None: raise Stuck('no value')
        self.write(st, dest, v)
        if target is None: return []
        return [self.jump(st, target)]
    def call(self, st, c, args, dest, target, rty):
        kind = c['r']
        if kind == 'ctor': return self.done(st, dest, target, Agg(c['ty'], c['v'], tuple(args)))
        if kind == 'ptr':
            f = self.operand(st, c['f'])
            return self.call_value(st, f, args, dest, target, rty)
        path = c.get('rpath') or c['path']
        self.calls_seen.setdefault((kind, path), self.span)
        # the client may treat a call as an atomic effect
        res = self.cl.intercept(self, st, c, args, rty)
        if res is None: res = self.models.call(self, st, c, args, rty, dest, target)
        if res is None:
            if kind == 'body':
                self.push_frame(st, c['key'], self.spread(c, args), dest, target, None, rty)
                self.fix_closure(st, c)
                return [(st, False, False)]
            if kind in ('event', 'virtual'): raise Stuck('unmodelled effect %s' % c['path'])
            return self.unknown(st, c, args, dest, target, rty)
        if isinstance(res, list):
            out = []
            for s2, v in res:
                if v.__class__ is tuple and v and v[0] == 'succ': out += v[1]
                elif v.__class__ is tuple and v and v[0] == 'panic': self.cl.on_panic(self, s2, 'panic', v[1])
                else: out += self.done(s2, dest, target, v)
            return out
        return self.done(st, dest, target, res)
    def spread(self, c, args):
        """rust-call ABI: closures receive their argument tuple unpacked."""
        b = self.P.bodies.get(c['key'])
        if c.get('trait', '').startswith('core::ops::function::Fn') and len(args) == 2 and b['argc'] != 2 or (c.get('trait', '').startswith('core::ops::function::Fn') and len(args) == 2 and self.is_closure_body(b)):
            tup = args[1]
            fs = tup.f if tup.__class__ is Agg else ()
            return [args[0]] + list(fs)
        return args
    def is_closure_body(self, b):
        t = self.T[b['locals'][1]] if b['argc'] >= 1 else None
        if t is None: return False
        if t['k'] == 'ref': t = self.T[t['e']]
        return t['k'] == 'closure'
    def fix_closure(self, st, c):
        """calling a by-reference closure body with a closure value: materialise the environment."""
        f = st.fr[-1]; b = self.P.bodies[f.k]
        if b['argc'] < 1 or not self.is_closure_body(b): return
        d = len(st.fr) - 1
        v = st.mem[('L', d, 1)]
        want_ref = self.T[b['locals'][1]]['k'] == 'ref'
        if want_ref and v.__class__ is not Ref:
            r = ('L', d, 'env')
            st.mem[r] = v
            st.mem[('L', d, 1)] = Ref(r)
        elif not want_ref and v.__class__ is Ref:
            st.mem[('L', d, 1)] = self.read(st, (v.r, v.p))
    def call_value(self, st, f, args, dest, target, rty):
        """call a function value (fn item, fn pointer or closure) with unpacked arguments."""
        while f.__class__ is Ref: f = self.read(st, (f.r, f.p))
        if f.__class__ is FnV:
            c = self.T[f.ty]['callee']
            return self.call(st, c, args, dest, target, rty)
        if f.__class__ is Agg and f.ty is not None and self.T[f.ty]['k'] == 'closure':
            key = self.T[f.ty]['body']
            if key is None: raise Stuck('closure body')
            self.push_frame(st, key, [f] + list(args), dest, target, None, rty)
            self.fix_closure(st, None)
            return [(st, False, False)]
        raise Stuck('call of %r' % (f,))
    def unknown(self, st, c, args, dest, target, rty):
        """an external function with no model: pure and deterministic when nothing mutable is passed."""
        for a in args:
            if self.mutable_reach(st, a): raise Stuck('unmodelled call %s may change tracked state' % (c.get('rpath') or c['path']))
        if c.get('pan'): self.cl.on_panic(self, st.fork(), 'panic', '%s may panic' % (c.get('rpath') or c['path']))
        at = tuple(self.argterm(st, a) for a in args)
        return self.done(st, dest, target, self.mk(rty, ('call', c.get('rpath') or c['path'], at)))
    def argterm(self, st, a):
        if a.__class__ is Ref:
            try: return ('&', self.term(self.read(st, (a.r, a.p))), a.m)
            except Stuck: return ('&', a.r, a.p)
        return self.term(a)
    def mutable_reach(self, st, a):
        c = a.__class__
        if c is Ref:
            if a.r[0] in ('lit', 'const'): return False
            if a.r in self.cl.tracked(st): return True
            v = st.mem.get(a.r)
            if a.r[0] == 'X':
                return self.cl.opaque_tracked(self, a.r)
            return False if v is None else self.mutable_reach(st, v)
        if c is Agg: return any(self.mutable_reach(st, x) for x in a.f if x is not None)
        if c is Fut: return True
        return False

    # --- polling
    def find_future(self, st, v):
        """follow pins, boxes and references to a future; returns (lvalue or None, value)."""
        lv = None
        for _ in range(20):
            if v.__class__ is Ref:
                lv = (v.r, v.p)
                v = self.read(st, lv)
                continue
            if v.__class__ is Agg and v.ty is not None and self.T[v.ty]['k'] == 'coroutine': return lv, v
            if v.__class__ is Agg and v.f and self.T[v.ty]['k'] == 'adt' and self.T[v.ty]['path'] in ('core::pin::Pin', 'alloc::boxed::Box', 'core::ptr::Unique', 'core::ptr::NonNull', 'core::mem::manually_drop::ManuallyDrop'):
                if lv is not None: lv = (lv[0], lv[1] + ((0, 0),))
                v = v.f[0]; continue
            return lv, v
        raise Stuck('future chain')
    def poll(self, st, args, dest, target, rty):
        lv, v = self.find_future(st, args[0])
        if v.__class__ is Fut:
            out_ty = self.payload_ty(rty, 'Ready')
            res = self.cl.effect(self, st, v.c, list(v.a), out_ty)
            if res is None: raise Stuck('unmodelled async effect %s' % (v.c,))
            return [(s2, x if (x.__class__ is tuple) else self.enum(rty, 'Ready', x)) for s2, x in res]
        if v.__class__ is Agg and self.T[v.ty]['k'] == 'coroutine':
            key = self.T[v.ty]['body']
            if key is None: raise Stuck('coroutine body of ' + self.T[v.ty]['s'])
            # the coroutine's state moves into the frame that runs it
            if lv is not None and lv[0][0] != 'X': self.write(st, lv, Agg(v.ty, 0, tuple(None for _ in v.f)))
            self.push_frame(st, key, [v, Opq(None, ('resume',))], dest, target, 'poll', rty)
            return [(st, ('succ', [(st, False, False)]))]
        raise Stuck('poll of %r' % (v,))

    def poll_root(self, st, v):
        """the entry point returned a future: drive it."""
        for r in [r for r in st.mem if r[0] == 'L' and r[1] == 0]: del st.mem[r]
        st.fr = ()
        st.mem[('L', -1, 0)] = v
        lv, v = self.find_future(st, Ref(('L', -1, 0)))
        if v.__class__ is Fut:
            for s2, x in self.cl.effect(self, st, v.c, list(v.a), v.out): self.exit('ret', s2, x)
            return []
        if v.__class__ is not Agg or self.T[v.ty]['k'] != 'coroutine' or self.T[v.ty]['body'] is None: raise Stuck('entry point returned %r' % (v,))
        self.write(st, lv, Agg(v.ty, 0, tuple(None for _ in v.f)))
        self.push_frame(st, self.T[v.ty]['body'], [v, Opq(None, ('resume',))], None, None, None, None)
        return [(st, False, True)]

    # --- garbage, joins
    def gc(self, st):
        live = set(); work = []
        def refs(v):
            c = v.__class__
            if c is Ref:
                if v.r not in live: live.add(v.r); work.append(v.r)
            elif c is Agg:
                for x in v.f:
                    if x is not None: refs(x)
            elif c is Seq:
                for s in v.s:
                    if s[0] == 'e': refs(s[1])
            elif c is Fut:
                for x in v.a: refs(x)
            elif c is tuple:
                for x in v: refs(x)
        for r, v in st.mem.items():
            if r[0] in ('L', 'X'):
                live.add(r)
                if v is not None: refs(v)
        for v in st.g.values(): refs(v)
        while work:
            r = work.pop()
            v = st.mem.get(r)
            if v is not None: refs(v)
        for r in [r for r in st.mem if r not in live]: del st.mem[r]
        self.cl.canon(self, st)
        names = self.names(st)
        st.f.keep(lambda k: occ(k) <= names)
    def names(self, st):
        s = set()
        for r, v in st.mem.items():
            s |= occ(r)
            if v is not None: s |= occ(v)
        for v in st.g.values(): s |= occ(v)
        return s
    def fresh(self, st, base):
        """a ground name ('ev', base, k) unused in the live state."""
        self.gc(st)
        names = self.names(st)
        k = 0
        while (base[0], base[1], k) in names: k += 1
        n = (base[0], base[1], k)
        st.f.keep(lambda key: n not in occ(key))
        return n
    def join_all(self, loc, sts):
        if len(sts) == 1: return sts
        out = []
        groups = {}
        for s in sts: groups.setdefault(self.cl.partition(self, s), []).append(s)
        for g in groups.values():
            cur = []
            for s in g:
                for i, o in enumerate(cur):
                    m = self.join2(loc, o, s, 'jn')
                    if m is not None: cur[i] = m; break
                else: cur.append(s)
            changed = len(cur) > 1
            while changed:
                changed = False
                for i in range(len(cur)):
                    for j in range(i + 1, len(cur)):
                        m = self.join2(loc, cur[i], cur[j], 'jn')
                        if m is not None:
                            cur[i] = m; del cur[j]; changed = True; break
                    if changed: break
            if len(cur) > self.cl.max_states:
                m = cur[0]
                for s in cur[1:]: m = self.join2(loc, m, s, 'phi')
                cur = [m]
            out += cur
        return out
    def same_frames(self, a, b):
        for x, y in zip(a.fr, b.fr):
            if x.dest != y.dest or x.nxt != y.nxt or x.wrap != y.wrap: return False
        return True
    def join2(self, loc, a, b, mode):
        """join two states at the same location; mode 'jn' only joins when memory agrees up to a common
        offset of integers (or the client joins values), 'phi' generalises every difference."""
        if not self.same_frames(a, b): return None
        regs = sorted(set(a.mem) | set(b.mem), key=repr)
        diffs = []       # (where, va, vb)
        mem = {}
        strict = mode == 'jn'
        leaves = []
        def walk(where, x, y):
            """returns merged template with placeholders, or raises."""
            if x is y or x == y: return x
            if x is None or y is None:
                return None
            h = self.cl.join_value(self, a, b, where, x, y)
            if h is not None: return h
            if x.__class__ is Int and y.__class__ is Int and (x.w == y.w) and x.sg == y.sg:
                leaves.append((where, x, y)); return ('leaf', len(leaves) - 1)
            if x.__class__ is Agg and y.__class__ is Agg and x.v == y.v and len(x.f) == len(y.f):
                return ('agg', x.ty, x.v, [walk(where + (i,), p, q) for i, (p, q) in enumerate(zip(x.f, y.f))])
            if x.__class__ is Ref and y.__class__ is Ref and x.r == y.r and x.p == y.p and x.m and y.m and not strict:
                # two windows of the same thing: a moving start, and a length or a common end
                e = [lin_add(l0, l1) for l0, l1 in ((lin_of(x.m[0]), lin_of(x.m[1])), (lin_of(y.m[0]), lin_of(y.m[1]))) if l0 is not None and l1 is not None]
                if x.m[0] != y.m[0] and len(e) == 2 and e[0] == e[1]: return ('win', x.r, x.p, walk(where + ('start',), x.m[0], y.m[0]), e[0])
                return ('wins', x.r, x.p, walk(where + ('start',), x.m[0], y.m[0]), walk(where + ('len',), x.m[1], y.m[1]))
            p, q = prefix_len(x), prefix_len(y)
            if p is not None and q is not None: return ('seg', x.ty, walk(where + ('len',), p, q))
            if strict: raise NoJoin()
            # generalise
            if {x.__class__, y.__class__} == {Agg, Opq} and x.ty == y.ty and self.record(x.ty):
                # a record changed member by member on one side
                return walk(where, *[self.expand(s, v) if v.__class__ is Opq else v for s, v in ((a, x), (b, y))])
            if x.__class__ is Seq or y.__class__ is Seq:
                ty = x.ty if x.ty is not None else y.ty
                leaves.append((where, x, y)); return ('leaf', len(leaves) - 1)
            if x.__class__ in (Agg, Opq) and y.__class__ in (Agg, Opq):
                leaves.append((where, x, y)); return ('leaf', len(leaves) - 1)
            raise NoJoin()
        try:
            for r in regs:
                if r in a.mem and r in b.mem: x, y = a.mem[r], b.mem[r]
                elif r[0] == 'X':
                    x = self.region(a, r); y = self.region(b, r)
                else:
                    # a place initialised on one side only is dead after the join
                    continue
                mem[r] = walk((r,), x, y)
            g = {}
            for k in set(a.g) | set(b.g):
                x, y = a.g.get(k), b.g.get(k)
                if x == y: g[k] = x; continue
                h = self.cl.join_ghost(self, a, b, k, x, y)
                if h is not None: g[k] = h[0]; continue
                if x.__class__ is Int and y.__class__ is Int: g[k] = walk(('g', k), x, y)
                else: raise NoJoin()
        except NoJoin:
            return None
        retained = set()
        def ret(t):
            if t.__class__ is tuple and t and t[0] == 'leaf' and len(t) == 2: return
            if t.__class__ is tuple and t and t[0] == 'agg' and len(t) == 4 and t[3].__class__ is list:
                for x in t[3]: ret(x)
                return
            if t.__class__ is tuple and t and t[0] == 'seg' and len(t) == 3: return ret(t[2])
            if t.__class__ is tuple and t and t[0] in ('win', 'wins') and len(t) == 5:
                retained.update(occ(t[1])); retained.update(occ(t[2])); ret(t[3])
                if t[0] == 'wins': ret(t[4])
                else: retained.update(occ(t[4]))
                return
            if t is not None: retained.update(occ(t))
        for r, t in mem.items(): retained |= occ(r); ret(t)
        for t in g.values(): ret(t)
        lid = self.locid(loc)
        classes = {}     # (difference affine) -> (sym, base lin a, base lin b)
        vals = []
        newsyms = []
        combos = []
        for where, x, y in leaves:
            if x.__class__ is Int:
                la, lb = lin_of(x), lin_of(y)
                if la is None: la = a.f.as_lin(x)
                if lb is None: lb = b.f.as_lin(y)
                d = lin_add(lb, la, -1)
                cand = classes.setdefault(d, [])
                got = None
                for sym, ba, bb_ in cand:
                    e = lin_add(la, ba, -1); e2 = lin_add(lb, bb_, -1)
                    if e == e2 and not e[1]:
                        got = Int(x.w, x.sg, 'l', lin_add((0, ((sym, 1),)), e)); break
                if got is None and (where[0] == 'g' or not strict):
                    t = self.combine(classes, la, lb, retained, where[0] != 'g')
                    if t is not None:
                        got = Int(x.w, x.sg, 'l', t); retained |= occ(got); combos.append((t, x, y))
                if got is None:
                    if strict and not self.cl.join_ints(self, where, x, y): return None
                    nm = self.newname('phi' if not strict else 'jn', lid, where, retained)
                    w, sg = (x.w, x.sg)
                    sym = (nm, 64, True) if False else (nm, w, sg)
                    cand.append((sym, la, lb)); newsyms.append((sym, x, y))
                    retained.add(nm)
                    got = Int(x.w, x.sg, 'l', (0, ((sym, 1),)))
                vals.append(got)
            else:
                nm = self.newname('phi', lid, where, retained)
                retained.add(nm)
                ty = x.ty if x.ty is not None else y.ty
                if x.__class__ is Seq or y.__class__ is Seq:
                    vals.append(Seq(ty, (('s', nm, self.seq_len_t(nm)),)))
                    BASE[(('len', nm), 64, False)] = (0, LENMAX)
                    ls = (('len', nm), 64, False); xl, yl = self.seq_len(x), self.seq_len(y)
                    newsyms.append((ls, xl, yl))
                    la, lb = lin_of(xl), lin_of(yl)
                    if la is not None and lb is not None: classes.setdefault(lin_add(lb, la, -1), []).append((ls, la, lb))
                else: vals.append(Opq(ty, nm))
        def build(t):
            if t.__class__ is tuple and t and t[0] == 'leaf' and len(t) == 2: return vals[t[1]]
            if t.__class__ is tuple and t and t[0] == 'agg' and len(t) == 4 and t[3].__class__ is list:
                return Agg(t[1], t[2], tuple(build(x) for x in t[3]))
            if t.__class__ is tuple and t and t[0] == 'seg' and len(t) == 3: 
                k = build(t[2])
                return Seq(t[1], () if k == C(0, 64, False) else (('s', ('els',), k),))
            if t.__class__ is tuple and t and t[0] in ('win', 'wins') and len(t) == 5:
                k = build(t[3])
                return Ref(t[1], t[2], (k, Int(k.w, k.sg, 'l', lin_add(t[4], lin_of(k), -1)) if t[0] == 'win' else build(t[4])))
            return t
        m2 = {r: build(t) for r, t in mem.items()}
        m2 = {r: v for r, v in m2.items() if v is not None}
        g2 = {k: build(t) for k, t in g.items()}
        new = {s[0][0] for s in newsyms}
        newn = {n for n in retained if n[0] in ('phi', 'jn')} if False else set()
        for s, x, y in newsyms: newn |= occ(s[0])
        fa, fb = a.f, b.f
        f = fa.join(fb)
        f.keep(lambda key: not (occ(key) & newn))
        for s, x, y in newsyms:
            ra, rb = fa.range(x), fb.range(y)
            lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
            tl, th = trange(s[1], s[2])
            if (lo, hi) != (tl, th): f.set_range((0, ((s, 1),)), lo, hi)
        for t, x, y in combos:
            ra, rb = fa.range(x), fb.range(y)
            lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
            if t[1]: f.set_range(t, lo, hi)
        # relational templates
        mapa = {}; mapb = {}
        for d, cand in classes.items():
            for sym, ba, bb_ in cand: mapa[sym] = ba; mapb[sym] = bb_
        for key in self.templates.get(lid, ()):
            if not any(s in mapa for s, c in key): continue
            xa = self.sublin(key, mapa); xb = self.sublin(key, mapb)
            ra, rb = fa.lrange(xa), fb.lrange(xb)
            lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
            f.set_range((0, key), lo, hi)
        # order between a merged integer and another one, known of what it replaces on one side
        if not strict:
            keys = set()
            for fx, mp in ((fa, mapa), (fb, mapb)):
                at = {}
                for sym, l in mp.items():
                    if len(l[1]) == 1 and l[1][0][1] == 1: at.setdefault(l[1][0][0], []).append(sym)
                for key in fx.rng if at else ():
                    if len(key) != 2 or {c for s, c in key} != {1, -1}: continue
                    for i in (0, 1):
                        for sym in at.get(key[i][0], ()):
                            o = key[1 - i]
                            if sym != o[0] and not (occ(o[0][0]) & newn): keys.add(f.lkey(tuple(sorted(((sym, key[i][1]), o), key=skey)))[0])
            for key in sorted(keys, key=repr)[:12]:
                if key in f.rng: continue
                xa = self.sublin(key, mapa); xb = self.sublin(key, mapb)
                ra, rb = fa.lrange(xa), fb.lrange(xb)
                lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
                dl, dh = f.lrange((0, key))
                lo = min(lo, 1) if lo >= 0 else dl; hi = max(hi, -1) if hi <= 0 else dh
                if lo > dl or hi < dh: f.set_range((0, key), max(lo, dl), min(hi, dh))
        # a merged integer that equals a length up to the same constant on both sides keeps doing so
        lens = {s for fx in (fa, fb) for key in fx.rng for s, c in key if s[0][0] == 'len' and s not in mapa} if strict and mapa else ()
        for sym in mapa if lens else ():
            for t in lens:
                if t[1] != sym[1]: continue
                ra, rb = fa.lrange(lin_add(mapa[sym], (0, ((t, 1),)), -1)), fb.lrange(lin_add(mapb[sym], (0, ((t, 1),)), -1))
                if ra == rb and ra[0] == ra[1]: f.set_range(lin_add((0, ((sym, 1),)), (0, ((t, 1),)), -1), ra[0], ra[1])
        s = State(a.fr, m2, f, g2)
        return s
    def combine(self, classes, la, lb, retained=(), mirror=False):
        """a ghost as an affine combination of one or two merged quantities and unmerged ones; another number only as the
        mirror image of a merged one (one counts up, the other down)."""
        syms = [c for cand in classes.values() for c in cand]
        best = None
        def offer(base, ba, bb):
            nonlocal best
            e = lin_add(la, ba, -1)
            if e == lin_add(lb, bb, -1) and (len(e[1]) <= 2 or all(s[0] in retained for s, _ in e[1])) and (best is None or len(e[1]) < best[0]): best = (len(e[1]), lin_add(base, e))
        for i, (s, ba, bb) in enumerate(syms):
            if not mirror: offer((0, ((s, 1),)), ba, bb)
            offer((0, ((s, -1),)), lin_scale(ba, -1), lin_scale(bb, -1))
            if mirror: continue
            for s2, ba2, bb2 in syms[:i]:
                if s2 != s: offer(lin_add((0, ((s, 1),)), (0, ((s2, 1),))), lin_add(ba, ba2), lin_add(bb, bb2))
        return None if best is None else best[1]
    def sublin(self, key, m):
        x = (0, ())
        for s, c in key:
            x = lin_add(x, lin_scale(m[s], c)) if s in m else lin_add(x, (0, ((s, c),)))
        return x
    def newname(self, kind, lid, where, retained):
        k = 0
        while True:
            n = (kind, lid, where, k)
            if n not in retained: return n
            k += 1

    def at_head(self, loc, sts):
        info = self.heads.setdefault(loc, HeadInfo())
        out = []
        sts = self.join_all(loc, sts)
        for s in sts:
            if any(self.subsumed(s, o) for o in info.seen): continue
            at = self.positions(s)
            part = (self.cl.partition(self, s), at)
            same = [o for o in info.seen if (self.cl.partition(self, o), self.positions(o)) == part]
            if not info.n.get(at) and len(same) < self.cl.unrolled(self, s) and not self.cl.eager(self, loc):
                # a merge with the numeric/client join is preferred to unrolling for ever
                info.seen.append(s.fork()); out.append(s); continue
            g = s; merged = []
            for o in same:
                m = self.join2(loc, o, g, 'phi')
                if m is None: continue
                g = m; merged.append(o)
                info.seen.remove(o)
            info.n[at] = info.n.get(at, 0) + 1
            if info.n[at] > 4: self.widen(g, merged)
            if info.n[at] > 60: raise Stuck('loop does not stabilise')
            info.seen.append(g.fork())
            out.append(g)
        return out
    def positions(self, st):
        """where the iterators over a fixed, small number of things stand: loops over those are followed
        item by item instead of being summarised."""
        out = []
        def walk(r, v):
            if v.__class__ is not Agg: return
            p = self.path_of(v.ty)
            if p in FIXED:
                lo, hi = [v.f[i] for i in FIXED[p]]
                if lo.__class__ is Int and hi.__class__ is Int and lo.k == hi.k == 'c' and hi.x - lo.x <= 64: out.append((r, lo.x, hi.x))
                return
            for x in v.f: walk(r, x)
        for r, v in st.mem.items():
            if r[0] == 'L': walk(r, v)
        return tuple(sorted(out, key=repr))
    def widen(self, g, olds):
        # forget interval facts (keep sign information) to force stabilisation
        for k, (lo, hi) in list(g.f.rng.items()):
            rs = [o.f.lrange((0, k)) for o in olds]
            nlo = lo if all(r[0] == lo for r in rs) else 0 if lo >= 0 else None
            nhi = hi if all(r[1] == hi for r in rs) else 0 if hi <= 0 else None
            if nlo == lo and nhi == hi: continue
            if nlo is None and nhi is None: del g.f.rng[k]; continue
            tl, th = -(1 << 70), 1 << 70
            if len(k) == 1 and k[0][1] == 1:
                tl, th = trange(k[0][0][1], k[0][0][2])
            nl = nlo if nlo is not None else tl; nh = nhi if nhi is not None else th
            if len(k) == 1 and k[0][1] == 1 and (nl, nh) == (tl, th): del g.f.rng[k]
            else: g.f.rng[k] = (nl, nh)
    def subsumed(self, n, g):
        """is state n an instance of the (already explored) state g?"""
        if not self.same_frames(n, g): return False
        b = {}; self.deferred = []; self.selfs = set()
        for k in set(n.g) | set(g.g):
            if not same_nones(g.g.get(k), n.g.get(k)) or not self.match(g.g.get(k), n.g.get(k), b, n): return False
        for r, gv in g.mem.items():
            nv = n.mem.get(r)
            if nv is None:
                if r[0] == 'X': nv = self.region(n, r)
                else: return False
            if not self.match(gv, nv, b, n): return False
        for r in n.mem:
            if r[0] == 'X' and r not in g.mem:
                if n.mem[r] != self.region(g, r): return False
        m = {s: x for s, x in b.items() if isinstance(s, tuple) and len(s) == 3 and isinstance(s[1], int)}
        for s, x in b.items():
            if s in m:
                if s[0] in self.selfs and x != (0, ((s, 1),)): return False
            elif s in self.selfs and (E_term(x) != s): return False
        for gv, nv in self.deferred:
            x = lin_add((gv.x[0], ()), self.sublin(gv.x[1], m))
            ln = lin_of(nv)
            if x != (ln if ln is not None else n.f.as_lin(nv)): return False
        # facts
        def bound(key): return any(nm in b_names for nm in occ(key))
        b_names = set()
        for s in b: b_names |= occ(s)
        for key, (lo, hi) in g.f.rng.items():
            x = self.sublin(key, m)
            if bound(key) and not all((s in m) or not (occ(s) & b_names) for s, c in key): return False
            r = n.f.lrange(x)
            if r[0] < lo or r[1] > hi: return False
        for key, v in g.f.sub.items():
            if bound(key) or bound(v):
                # a known bit of a merged number: does the number it stands for now have it?
                sy = key[0]
                if v in (0, 1) and sy in m and key[1] == sy[1] - 1 and sy[2]:
                    lo, hi = n.f.lrange(m[sy])
                    if (lo >= 0 and hi < 1 << key[1]) if v == 0 else (hi < 0 and lo >= -(1 << key[1])): continue
                return False
            if n.f.sub.get(key) != v:
                # implied another way?
                if n.f.sbit((frozenset((key,)), 0)) != n.f.sbit(v): return False
        for key, v in g.f.ne.items():
            if bound(key):
                if len(key) == 1 and key[0] != 'b':
                    x = self.sublin(key, m); lo, hi = n.f.lrange(x)
                    if all(e < lo or e > hi for e in v): continue
                return False
            have = n.f.ne.get(key, frozenset())
            if not v <= have:
                if key and key[0] == 'b': return False
                lo, hi = n.f.lrange((0, key))
                if not all(e in have or e < lo or e > hi for e in v): return False
        for key, v in g.f.q.items():
            if bound(key): return False
            if n.f.q.get(key) != v: return False
        return True
    def match(self, gv, nv, b, n):
        if gv is nv or gv == nv:
            # generalised names occurring on both sides stand for themselves
            self.selfs |= {x for x in occ(gv) if x[0] in ('phi', 'jn')}
            return True
        if gv is None or nv is None: return gv is None
        if gv.__class__ is Int and nv.__class__ is Int:
            if gv.w != nv.w: return False
            if gv.k == 'l' and len(gv.x[1]) == 1 and gv.x[1][0][1] == 1:
                s = gv.x[1][0][0]
                if isinstance(s[0], tuple) and s[0][0] in ('phi', 'jn'):
                    ln = lin_of(nv)
                    if ln is None: ln = n.f.as_lin(nv)
                    v = lin_add(ln, (gv.x[0], ()), -1)
                    if b.setdefault(s, v) != v: return False
                    return True
            if gv.k == 'l' and len(gv.x[1]) > 1 and all(abs(c) == 1 for s, c in gv.x[1]):
                self.deferred.append((gv, nv)); return True
            return n.f.simp(gv) == n.f.simp(nv) if gv.k == 'c' else False
        if gv.__class__ is Agg and nv.__class__ is Agg:
            return gv.v == nv.v and len(gv.f) == len(nv.f) and all(self.match(x, y, b, n) for x, y in zip(gv.f, nv.f))
        if gv.__class__ is Agg and nv.__class__ is Opq and gv.ty == nv.ty and self.record(gv.ty):
            return self.match(gv, self.expand(n, nv), b, n)
        if gv.__class__ is Opq and gv.t[0] == 'phi':
            if nv.__class__ in (Agg, Opq):
                return b.setdefault(gv.t, nv) == nv
        if gv.__class__ is Seq and gv.s and nv.__class__ is Seq and prefix_len(gv) is not None and prefix_len(nv) is not None:
            return self.match(prefix_len(gv), prefix_len(nv), b, n)
        if gv.__class__ is Seq and len(gv.s) == 1 and gv.s[0][0] == 's' and gv.s[0][1][0] == 'phi' and nv.__class__ in (Seq, Opq):
            if b.setdefault(gv.s[0][1], nv) != nv: return False
            s = gv.s[0][2].x[1][0][0]
            l = lin_of(self.seq_len(nv))
            return b.setdefault(s, l) == l
        if gv.__class__ is Ref and nv.__class__ is Ref:
            return gv.r == nv.r and gv.p == nv.p and self.match(gv.m, nv.m, b, n)
        if gv.__class__ is tuple and nv.__class__ is tuple and len(gv) == len(nv):
            return all(self.match(x, y, b, n) for x, y in zip(gv, nv))
        return False

def prefix_len(v):
    """the length of a sequence known to hold the first elements read, in order (possibly none)."""
    if v.__class__ is not Seq: return None
    if not v.s: return C(0, 64, False)
    return v.s[0][2] if len(v.s) == 1 and v.s[0][0] == 's' and v.s[0][1] == ('els',) else None
def same_nones(x, y):
    """in a ghost None is a value, not an uninitialised place."""
    if x is None or y is None: return x is y
    if x.__class__ is tuple and y.__class__ is tuple: return len(x) == len(y) and all(same_nones(p, q) for p, q in zip(x, y))
    return True

def E_term(v):
    return v.t if v.__class__ is Opq else v.s[0][1] if v.__class__ is Seq and len(v.s) == 1 and v.s[0][0] == 's' else None

class NoJoin(Exception): pass

class Client:
    """default hooks."""
    max_states = 64
    def reset(self, E): pass
    def canon(self, E, st): pass
    def partition(self, E, st): return None
    def eager(self, E, loc): return False
    def unrolled(self, E, st): return E.unroll
    def project(self, E, st, v, e): return None
    def join_value(self, E, a, b, where, x, y): return None
    def join_ghost(self, E, a, b, k, x, y): return None
    def join_ints(self, E, where, x, y): return False
    def intercept(self, E, st, c, args, rty): return None
    def effect(self, E, st, name, args, rty): return None
    def event_path(self, E, st, c, args, rty): return None
    def on_exit(self, E, e): pass
    def on_panic(self, E, st, kind, msg): E.exit('panic', st, (kind, msg))
    def on_unreachable(self, E, st): E.exit('panic', st, ('unreachable', 'unreachable code reached'))
    def tracked(self, st): return ()
    def opaque_tracked(self, E, r): return True
    def alloc(self, E, st, what, n, fallible, rty): return None
progress.Agg, progress.Ref, progress.Seq, progress.Stuck = Agg, Ref, Seq, Stuck
