"""Rules for the code shared by all protocols: skipping, list reading, forwarding through a box."""
from events import *
from engine import prefix_len
from domain import lin_of
from codec import error_cat, returns_future

SCALAR = {'Bool': 'read_bool', 'I08': 'read_i8', 'I16': 'read_i16', 'I32': 'read_i32', 'I64': 'read_i64', 'Double': 'read_double', 'String': 'read_bytes'}
EQUIV = {'I08': ('read_i8', 'read_byte')}
BEGIN = {'read_list_begin': 'List', 'read_set_begin': 'Set'}
U32 = lambda n: C(n, 32, False)

def res_payload(E, rty, t):
    return E.ok(rty, E.mk(E.payload_ty(rty, 'Ok'), t))

class ProtoClient(EventClient):
    """common part of the skip and list monitors."""
    def partition(self, E, st): return (st.g['ph'], st.g.get('fail'), st.g.get('cap'))
    def okv(self, E, st, rty, kind):
        n = E.fresh(st, ('ev', kind))
        return E.mk(E.payload_ty(rty, 'Ok'), n)
    def both(self, E, st, rty, v, m):
        f = self.failed(E, st, rty, m)
        return [(st, E.ok(rty, v)), f]
    def recv(self, E, st, args):
        r = self_ref(E, args[0])
        if r.__class__ is not Ref or r.r != self.region: raise Stuck('operation on another protocol')
    def fld(self, E, st, v, name):
        for i, (n, t, *_) in enumerate(E.T[v.ty]['v'][0]['f']):
            if n == name: return E.proj(st, v, (0, i))
        raise Stuck('no field ' + name)

class SkipClient(ProtoClient):
    def __init__(self, E_args):
        super().__init__(); self.recursive = None
    def vname(self, E, st, v):
        """possible variant names of a TType value."""
        return [E.T[v.ty]['v'][i]['n'] for i in E.in_range_variants(st, v)]
    def need_depth(self, E, st, m):
        if self.depth is None: return True
        if st.f.truth(st.f.cmp('Lt', C(0, self.depth.w, self.depth.sg), self.depth)) is not True:
            self.bad(E, st, 'depth', '%s is reached without the depth having been checked' % m); return False
        return True
    def intercept(self, E, st, c, args, rty):
        r = super().intercept(E, st, c, args, rty)
        if r is not None: return r
        if c.get('r') != 'body' or not c.get('rlocal', c.get('local')): return None
        key = c['key']
        stack = [f.k for f in st.fr]
        if key in self.helpers and key in stack:
            ty, d = self.sig(E, st, args)
            if ty is None: raise Stuck('recursion through %s' % c['path'])
            if returns_future(E.P, key): return Fut(('::TInputProtocol', 'skip_till_depth'), (args_self(args), ty, d), fut_out(E, rty))
            return E.cl.effect(E, st, ('::TInputProtocol', 'skip_till_depth'), [args_self(args), ty, d], rty)
        ty, d = self.sig(E, st, args)
        if ty is not None and d is not None and ty == self.ty and d == self.depth and len(args) == 3: self.helpers.add(key)
        return None
    def sig(self, E, st, args):
        ty = d = None
        for a in args:
            if a.__class__ is Int: d = a
            elif a.__class__ in (Agg, Opq) and a.ty is not None and E.T[a.ty].get('path', '').endswith('::TType'): ty = a
        return ty, d
    def step(self, E, st, tr, m, sty, args, rty):
        self.recv(E, st, args)
        ph = st.g['ph']
        if m == 'read_field_end' and ph[0] in ('st', 'fld') :
            return self.both(E, st, rty, UNIT, m)
        if m in ('skip_till_depth', 'skip'):
            return self.inner(E, st, m, args, rty)
        if not self.need_depth(E, st, m): return []
        if ph[0] == 'init':
            names = self.vname(E, st, self.ty)
            for n in names:
                if n in SCALAR:
                    if m == 'read_string' and n == 'String':
                        return self.bad(E, st, 'value', 'a value of wire type String (also used for binaries) is skipped by decoding it as UTF-8')
                    if m not in EQUIV.get(n, (SCALAR[n],)): return self.bad(E, st, 'io', 'a value of type %s is skipped by %s' % (n, m))
                elif {'Struct': 'read_struct_begin', 'List': 'read_list_begin', 'Set': 'read_set_begin', 'Map': 'read_map_begin'}.get(n) != m:
                    if (n, m) in (('List', 'read_set_begin'), ('Set', 'read_list_begin')): continue
                    return self.bad(E, st, 'io', 'a value of type %s is skipped by %s' % (n, m))
            if m == 'read_struct_begin':
                f = self.failed(E, st, rty, m); v = self.okv(E, st, rty, 'sb')
                st.g['ph'] = ('st',); return [(st, E.ok(rty, v)), f]
            if m in BEGIN:
                f = self.failed(E, st, rty, m); v = self.okv(E, st, rty, 'lb')
                st.g['ph'] = ('ls', v); st.g['cnt'] = U32(0); return [(st, E.ok(rty, v)), f]
            if m == 'read_map_begin':
                f = self.failed(E, st, rty, m); v = self.okv(E, st, rty, 'mb')
                st.g['ph'] = ('mp', v, 0, 'full'); st.g['cnt'] = U32(0)
                # the codec reports the types of every map that is not empty
                some = st.fork(); none = st
                none.g['ph'] = ('mp', v, 0, 'empty')
                size = self.fld(E, st, v, 'size')
                out = [f]
                if none.f.assume(none.f.cmp('Eq', size, U32(0)), True): out.append((none, E.ok(rty, v)))
                good = some.f.assume(some.f.cmp('Lt', U32(0), size), True)
                for x in ('key_type', 'value_type'):
                    o = self.fld(E, some, v, x); i = E.variant_index(o.ty, 'Some')
                    good = good and some.f.assume(some.f.cmp('Eq', E.discr(some, o), C(E.T[o.ty]['v'][i]['d'], 64, True)), True)
                if good: out.append((some, E.ok(rty, v)))
                return out
            f = self.failed(E, st, rty, m); v = self.okv(E, st, rty, 'val')
            st.g['ph'] = ('done',); return [(st, E.ok(rty, v)), f]
        if ph[0] == 'st':
            if m != 'read_field_begin': return self.bad(E, st, 'io', '%s where the next field of the structure begins' % m)
            f = self.failed(E, st, rty, m); v = self.okv(E, st, rty, 'fb')
            st.g['ph'] = ('fld', v); return [(st, E.ok(rty, v)), f]
        if ph[0] == 'fld':
            names = self.vname(E, st, self.fld(E, st, ph[1], 'field_type'))
            if m == 'read_struct_end' and names == ['Stop']:
                st.g['ph'] = ('done',); return self.both(E, st, rty, UNIT, m)
            return self.bad(E, st, 'io' if m != 'read_struct_end' else 'state', '%s after the header of a field of type %s' % (m, '/'.join(names)))
        if ph[0] == 'ls':
            if m in ('read_list_end', 'read_set_end'): return self.end(E, st, ph[1], rty, m)
            return self.bad(E, st, 'io', '%s inside a list' % m)
        if ph[0] == 'mp':
            if m == 'read_map_end' and ph[2] == 0: return self.end(E, st, ph[1], rty, m)
            return self.bad(E, st, 'io', '%s inside a map' % m)
        return self.bad(E, st, 'io', '%s after the end of the value' % m)
    def end(self, E, st, ident, rty, m):
        size = self.fld(E, st, ident, 'size')
        if st.f.truth(st.f.cmp('Eq', size, st.g['cnt'])) is not True:
            return self.bad(E, st, 'io', 'the collection ends after %r of its %r elements' % (st.f.simp(st.g['cnt']), size))
        st.g['ph'] = ('done',)
        return self.both(E, st, rty, UNIT, m)
    def inner(self, E, st, m, args, rty):
        ph = st.g['ph']; ty = args[1]
        if self.entry == 'skip':
            # skip(ty) = skip_till_depth(ty, limit)
            if ph[0] != 'init' or m != 'skip_till_depth': return self.bad(E, st, 'io', 'skip does not skip exactly once')
            if ty != self.ty: return self.bad(E, st, 'io', 'skip skips another type than requested')
            d = st.f.simp(args[2])
            if d.k != 'c' or d.x != 64: return self.bad(E, st, 'depth', 'skip starts with a depth limit of %r instead of 64' % d)
            st.g['ph'] = ('done',)
            return self.both(E, st, rty, UNIT, m)
        if m == 'skip': return self.bad(E, st, 'depth', 'the depth limit is reset while descending')
        if not self.need_depth(E, st, m): return []
        want = st.f.binop('Sub', self.depth, C(1, self.depth.w, self.depth.sg))
        d = st.f.simp(args[2])
        if d != want and st.f.truth(st.f.cmp('Eq', d, want)) is not True:
            return self.bad(E, st, 'depth', 'descends with depth %r where one level less than the current limit is %r' % (d, want))
        if ph[0] == 'fld':
            ft = self.fld(E, st, ph[1], 'field_type')
            if ty != ft: return self.bad(E, st, 'io', 'skips a field with another type than the one in its header')
            if 'Stop' in self.vname(E, st, ft): return self.bad(E, st, 'io', 'skips a field value after a stop')
            st.g['ph'] = ('st',)
            return self.both(E, st, rty, UNIT, m)
        if ph[0] == 'ls':
            et = self.fld(E, st, ph[1], 'element_type')
            if ty != et: return self.bad(E, st, 'io', 'skips an element with another type than the one in the collection header')
            if not self.below(E, st, ph[1]): return []
            st.g['cnt'] = st.f.binop('Add', st.g['cnt'], U32(1))
            return self.both(E, st, rty, UNIT, m)
        if ph[0] == 'mp':
            o = self.fld(E, st, ph[1], 'key_type' if ph[2] == 0 else 'value_type')
            k = E.known_variant(st, o)
            if k is None or E.T[o.ty]['v'][k]['n'] != 'Some' or E.proj(st, o, (k, 0)) != ty:
                return self.bad(E, st, 'io', 'skips a map %s with another type than the one in the map header' % ('key', 'value')[ph[2]])
            if ph[2] == 0:
                if not self.below(E, st, ph[1]): return []
                st.g['ph'] = ('mp', ph[1], 1, ph[3])
            else:
                st.g['ph'] = ('mp', ph[1], 0, ph[3]); st.g['cnt'] = st.f.binop('Add', st.g['cnt'], U32(1))
            return self.both(E, st, rty, UNIT, m)
        return self.bad(E, st, 'io', 'descends where there is nothing to skip')
    def below(self, E, st, ident):
        if st.f.truth(st.f.cmp('Lt', st.g['cnt'], self.fld(E, st, ident, 'size'))) is True: return True
        self.bad(E, st, 'io', 'skips more elements than the collection has'); return False

def args_self(args):
    for a in args:
        if self_ref(None, a).__class__ is Ref: return a
    raise Stuck('no receiver')
def fut_out(E, rty):
    """result type of a boxed future type."""
    t = E.T[rty]
    for s in ('Output = ',):
        i = t['s'].find(s)
        if i >= 0:
            out = t['s'][i + len(s):]
            for k, x in enumerate(E.T):
                if out.startswith(x['s'] + '>') : return k
    raise Stuck('future type')

def run_default(P, key, cl, ghost):
    b = P.bodies[key]
    E = Engine(P, cl, unroll=2)
    args = [E.mk(t, ('arg', i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]
    cl.region = args[0].r
    return E, args, b

def ok_err(E, cl, ex, stats):
    """checks shared by all monitors; returns (name, payload) or None when already decided."""
    if ex.kind == 'stuck':
        cl.viol.append(('stuck', str(ex.val), ex.span)); return None
    if ex.kind == 'panic':
        if not cl.may_panic(E, ex.st): cl.viol.append(('panic', 'can panic (%s)' % (ex.val[1],), ex.span))
        return None
    n, p = err_payload(E, ex)
    if n is None: cl.viol.append(('stuck', 'result %r' % (ex.val,), ex.span)); return None
    f = ex.st.g.get('fail')
    if f is not None:
        if n == 'Ok': cl.viol.append(('swallow', 'returns success although %s failed' % ex.st.g['failop'], ex.span))
        elif not (p.__class__ is Opq and p.t == f): cl.viol.append(('err-io', 'returns another error than the one of the failed %s' % ex.st.g['failop'], ex.span))
        return None
    return n, p

def check_skip(P, key, entry):
    cl = SkipClient(None)
    cl.helpers = set(); cl.entry = entry
    E, args, b = run_default(P, key, cl, None)
    cl.ty = args[1]; cl.depth = args[2] if len(args) > 2 else None
    def may_panic(E, st):
        ph = st.g['ph']
        if ph[0] != 'mp': return False
        for x in ('key_type', 'value_type'):
            o = cl.fld(E, st, ph[1], x)
            k = E.known_variant(st, o)
            if k is not None and E.T[o.ty]['v'][k]['n'] == 'None': return st.f.truth(st.f.cmp('Lt', U32(0), cl.fld(E, st, ph[1], 'size'))) is True
        return False
    cl.may_panic = may_panic
    exits = E.run(key, args, {'ph': ('init',), 'fail': None}, asyn=returns_future(P, key))
    ends = set()
    for ex in exits:
        r = ok_err(E, cl, ex, None)
        if r is None: continue
        n, p = r; st = ex.st; ph = st.g['ph']
        names = cl.vname(E, st, cl.ty)
        if n == 'Ok':
            if ph[0] != 'done':
                if not (set(names) & (set(SCALAR) | {'Stop', 'Struct', 'List', 'Set', 'Map'})) and ph[0] == 'init': continue
                cl.viol.append(('io', 'succeeds without having skipped a whole value of type %s' % '/'.join(names), ex.span))
            else: ends |= set(names)
            continue
        cat = error_cat(E, st, p)
        if cl.depth is not None:
            low = st.f.truth(st.f.cmp('Lt', C(0, cl.depth.w, cl.depth.sg), cl.depth))
            if low is not True:
                if ph[0] != 'init': cl.viol.append(('depth', 'the depth is checked too late', ex.span))
                if cat[:2] == ('Protocol', 'DepthLimit'):
                    if low is None: cl.viol.append(('depth', 'rejects depths that are not exhausted', ex.span))
                    ends.add('limit')
                elif low is False: cl.viol.append(('err', 'an exhausted depth is reported as %s' % (cat,), ex.span))
                elif set(names) & set(SCALAR): cl.viol.append(('err', 'rejects a value', ex.span))
                continue
        if may_panic(E, st): continue
        if ph[0] != 'init' or set(names) & (set(SCALAR) | {'Struct', 'List', 'Set', 'Map'}):
            cl.viol.append(('err-valid', 'returns the error %s while skipping a value of type %s' % (cat, '/'.join(names)), ex.span))
    if entry == 'skip_till_depth':
        miss = (set(SCALAR) | {'Struct', 'List', 'Set', 'Map', 'limit'}) - ends
        if miss and not any(v[0] in ('stuck',) for v in cl.viol): cl.viol.append(('err-valid', 'no path skips a value of type %s' % ', '.join(sorted(miss)) if miss != {'limit'} else 'no path rejects an exhausted depth', E.P.bodies[key].get('span')))
    return cl.viol, {'exits': len(exits), 'steps': E.steps, 'events': cl.nev, 'analysed': sorted(E.analysed)}

class ListClient(ProtoClient):
    def reset(self, E): super().reset(E); self.allocs = 0
    def may_panic(self, E, st): return False
    def canon(self, E, st):
        cur = st.g.get('cur')
        if cur is None: return
        for r, v in list(st.mem.items()):
            w = self.fold(E, st, v, cur)
            if w is not None:
                st.mem[r] = w; st.g['cur'] = None; st.g['cap'] = 'all' if st.g['cap'] == 'all' else None
                return
    def fold(self, E, st, v, cur):
        if v.__class__ is Seq and v.s and v.s[-1][0] == 'e' and E.term(v.s[-1][1]) == cur:
            k = prefix_len(Seq(v.ty, v.s[:-1]))
            if k is not None: return Seq(v.ty, (('s', ('els',), st.f.simp(st.f.binop('Add', k, C(1, 64, False)))),))
        if v.__class__ is Agg:
            for i, x in enumerate(v.f):
                if x is None: continue
                w = self.fold(E, st, x, cur)
                if w is not None: return Agg(v.ty, v.v, v.f[:i] + (w,) + v.f[i + 1:])
        return None
    def alloc(self, E, st, what, n, fallible, ty):
        n = st.f.simp(n); ph = st.g['ph']
        if what == 'push':
            if st.g['cap'] is None: self.bad(E, st, 'alloc', 'the list grows by a reservation whose failure is not reported')
            elif st.g['cap'] == 'one': st.g['cap'] = None
            return
        self.allocs += 1
        if n.k == 'c' and n.x <= 16:
            if fallible and n.x >= 1 and st.g['cap'] is None: st.g['cap'] = 'one'
            return
        if ph[0] != 'ls': self.bad(E, st, 'budget', '%s(%r) outside the list' % (what, n)); return
        size = st.f.cast(self.fld(E, st, ph[1], 'size'), 64, False)
        if not fallible: self.bad(E, st, 'alloc', '%s(%r): a refused reservation aborts' % (what, n))
        if st.f.truth(st.f.cmp('Le', n, size)) is not True: self.bad(E, st, 'budget', '%s(%r) reserves more than the %r declared elements that were charged' % (what, n, size))
        if st.f.truth(st.f.cmp('Eq', n, size)) is True: st.g['cap'] = 'all'
    def step(self, E, st, tr, m, sty, args, rty):
        self.canon(E, st)
        ph = st.g['ph']
        if m in ('read_from_in_protocol', 'stream_from_in_protocol'):
            self.recv(E, st, args)
            if ph[0] != 'ls': return self.bad(E, st, 'io', 'an element is read outside the list')
            if st.g['cur'] is not None: return self.bad(E, st, 'value', 'an element read is not put into the list')
            size = self.fld(E, st, ph[1], 'size')
            if st.f.truth(st.f.cmp('Lt', st.g['cnt'], size)) is not True: return self.bad(E, st, 'io', 'reads more elements than the list has')
            f = self.failed(E, st, rty, m)
            v = self.okv(E, st, rty, 'el')
            st.g['cnt'] = st.f.binop('Add', st.g['cnt'], U32(1)); st.g['cur'] = E.term(v)
            return [(st, E.ok(rty, v)), f]
        self.recv(E, st, args)
        if m == 'read_list_begin' and ph[0] == 'init':
            f = self.failed(E, st, rty, m); v = self.okv(E, st, rty, 'lb')
            st.g['ph'] = ('ls', v); st.g['cnt'] = U32(0); return [(st, E.ok(rty, v)), f]
        if m == 'read_list_end' and ph[0] == 'ls':
            size = self.fld(E, st, ph[1], 'size')
            if st.f.truth(st.f.cmp('Eq', size, st.g['cnt'])) is not True: return self.bad(E, st, 'io', 'the list ends after %r of its %r elements' % (st.f.simp(st.g['cnt']), size))
            if st.g['cur'] is not None: return self.bad(E, st, 'value', 'an element read is not put into the list')
            st.g['ph'] = ('done',); return self.both(E, st, rty, UNIT, m)
        return self.bad(E, st, 'io', '%s while reading a list' % m)

def check_read_list(P, key):
    cl = ListClient()
    E, args, b = run_default(P, key, cl, None)
    exits = E.run(key, args, {'ph': ('init',), 'fail': None, 'cur': None, 'cap': None}, asyn=returns_future(P, key))
    oks = 0
    for ex in exits:
        r = ok_err(E, cl, ex, None)
        if r is None: continue
        n, p = r; st = ex.st
        if n == 'Err':
            cat = error_cat(E, st, p)
            if st.g.get('oom'):
                if cat[:2] != ('Protocol', 'SizeLimit'): cl.viol.append(('err', 'reports a refused allocation as %s' % (cat,), ex.span))
                continue
            cl.viol.append(('err-valid', 'returns the error %s for a valid list' % (cat,), ex.span)); continue
        cl.canon(E, st)
        oks += 1
        if st.g['ph'][0] != 'done': cl.viol.append(('io', 'succeeds before the end of the list', ex.span))
        elif prefix_len(p) is None or st.f.truth(st.f.cmp('Eq', prefix_len(p), st.f.cast(st.g['cnt'], 64, False))) is not True:
            cl.viol.append(('value', 'does not return the elements read, in order: %r' % (p,), ex.span))
    if not oks: cl.viol.append(('err-valid', 'no path returns a list', b.get('span')))
    return cl.viol, {'exits': len(exits), 'steps': E.steps, 'events': cl.nev, 'allocs': cl.allocs, 'analysed': sorted(E.analysed)}

class FwdClient(EventClient):
    def partition(self, E, st): return st.g['n']
    def may_panic(self, E, st): return False
    def step(self, E, st, tr, m, sty, args, rty):
        if st.g['n']: return self.bad(E, st, 'io', 'forwards more than one operation')
        if m != self.method: return self.bad(E, st, 'io', 'forwards to %s' % m)
        r = self_ref(E, args[0])
        if r.__class__ is not Ref or r.r != self.inner: return self.bad(E, st, 'io', 'does not forward to the protocol in the box')
        for i, (x, y) in enumerate(zip(args[1:], self.args[1:])):
            if x != y: return self.bad(E, st, 'value', 'argument %d is not forwarded unchanged' % (i + 1))
        st.g['n'] = 1
        f = self.failed(E, st, rty, m)
        return [(st, E.ok(rty, E.mk(E.payload_ty(rty, 'Ok'), ('ev', 'res')))), f]

def check_fwd(P, key, method):
    cl = FwdClient(); cl.method = method
    E, args, b = run_default(P, key, cl, None)
    cl.args = args
    cl.inner = E.region(type('S', (), {'mem': {}})(), args[0].r).r
    exits = E.run(key, args, {'n': 0, 'fail': None}, asyn=returns_future(P, key))
    oks = 0
    for ex in exits:
        r = ok_err(E, cl, ex, None)
        if r is None: continue
        n, p = r
        if n == 'Err': cl.viol.append(('err', 'returns an error of its own', ex.span))
        else:
            oks += 1
            if not ex.st.g['n']: cl.viol.append(('io', 'does not forward', ex.span))
            else:
                want = E.mk(p.ty if p.__class__ is not Int else None, ('ev', 'res')) if p.__class__ is not Int else mksym(('ev', 'res'), p.w, p.sg)
                if p != want and E.term(p) != ('ev', 'res') and not (p.__class__ is Agg and not p.f): cl.viol.append(('value', 'does not return the result unchanged', ex.span))
    if not oks: cl.viol.append(('io', 'never forwards', b.get('span')))
    return cl.viol, {'exits': len(exits), 'steps': E.steps, 'events': cl.nev, 'analysed': sorted(E.analysed)}
