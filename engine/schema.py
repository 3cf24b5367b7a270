"""Rules for the Parquet structures, unions and enums: each generated reader and writer is compared, along
every abstract path, with the published format definition (spec/parquet.idl).

Protocol operations and the readers/writers of other structures are events; a typestate follows the
structure being read or written, and the values read are followed to the member of the result."""
import os, re
from events import *
from domain import lin_of, lin_add, BASE
from engine import subst, occ
from codec import error_cat, returns_future
import models

IDL = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'parquet.idl')
class Member:
    def __init__(self, id, name, type, req): self.id = id; self.name = name; self.type = type; self.req = req
class Decl:
    def __init__(self, kind, name): self.kind = kind; self.name = name; self.m = []; self.values = []
def load(path=IDL):
    out = {}; cur = None
    for l in open(path):
        l = l.split('#')[0].rstrip()
        if not l: continue
        w = l.split()
        if not l.startswith(' '):
            cur = out[w[1]] = Decl(w[0], w[1])
            if w[0] == 'enum': cur.values = [(x.split('=')[0], int(x.split('=')[1])) for x in w[2:]]
        elif cur.kind == 'struct': cur.m.append(Member(int(w[0]), w[2], tuple(w[3:]), w[1] == '!'))
        else: cur.m.append(Member(int(w[0]), w[1], tuple(w[2:]), None))
    return out
SPEC = load()
WIRE = {'bool': 'Bool', 'i8': 'I08', 'i16': 'I16', 'i32': 'I32', 'i64': 'I64', 'double': 'Double', 'string': 'String', 'binary': 'String'}
def wire(t):
    if t[0] == 'list': return 'List'
    if t[0] in WIRE: return WIRE[t[0]]
    return 'I32' if SPEC[t[0]].kind == 'enum' else 'Struct'
ROP = {'bool': 'read_bool', 'i8': 'read_i8', 'i16': 'read_i16', 'i32': 'read_i32', 'i64': 'read_i64', 'double': 'read_double', 'string': 'read_string', 'binary': 'read_bytes'}
WOP = {'bool': 'write_bool', 'i8': 'write_i8', 'i16': 'write_i16', 'i32': 'write_i32', 'i64': 'write_i64', 'double': 'write_double', 'string': 'write_string', 'binary': 'write_bytes'}

PAT = re.compile(r'^<?\w+::parquet_format::(\w+)(?: as [\w:]+)?>?::(\w+)$')
READERS = {'read_from_in_protocol', 'stream_from_in_protocol'}
WRITERS = {'write_to_out_protocol', 'write_to_out_stream_protocol'}
def anchor(c):
    m = PAT.match(c.get('rpath') or c.get('path') or '')
    if not m or m.group(1) not in SPEC: return None
    if m.group(2) in READERS or m.group(2) in WRITERS: return m.group(1), m.group(2)
    return None

class SchemaClient(EventClient):
    def __init__(self, decl):
        super().__init__(); self.d = decl
    def may_panic(self, E, st): return False
    def intercept(self, E, st, c, args, rty):
        r = super().intercept(E, st, c, args, rty)
        if r is not None: return r
        if c.get('r') != 'body' or not c.get('rlocal', c.get('local')): return None
        a = anchor(c)
        if a is None or a[0] == self.d.name: return None
        if a[1] in ('stream_from_in_protocol', 'write_to_out_stream_protocol'): return Fut(('schema', a[1], a[0]), tuple(args), rty)
        return self.effect(E, st, ('schema', a[1], a[0]), list(args), rty)
    def effect(self, E, st, name, args, rty):
        if name[0] != 'schema': return super().effect(E, st, name, args, rty)
        self.nev += 1
        if st.g.get('fail') is not None: return self.bad(E, st, 'after-failure', '%s of %s is called after an operation has already failed' % (name[1], name[2]))
        return self.step(E, st, 'schema', name[1], name[2], args, rty)
    def recv(self, E, st, v):
        r = self_ref(E, v)
        if r.__class__ is not Ref or r.r != self.region: raise Stuck('operation on another protocol')
    def fld(self, E, st, v, name):
        for i, (n, t, *_) in enumerate(E.T[v.ty]['v'][0]['f']):
            if n == name: return E.proj(st, v, (0, i))
        raise Stuck('no field ' + name)
    def vname(self, E, st, v): return [E.T[v.ty]['v'][i]['n'] for i in E.in_range_variants(st, v)]
    def alloc(self, E, st, what, n, fallible, ty):
        n = st.f.simp(n)
        if n.k != 'c': self.bad(E, st, 'budget', '%s(%r) in the code of a structure' % (what, n))
    def index(self, E, ty, m):
        for i, (n, *_) in enumerate(E.T[ty]['v'][0]['f']):
            if n == m.name: return i
        raise Stuck('%s has no field %s' % (self.d.name, m.name))
    def none_some(self, E, ty): return E.variant_index(ty, 'None'), E.variant_index(ty, 'Some')

# ---- writers ----------------------------------------------------------------------------------
class WriteClient(SchemaClient):
    """ghosts: ph phase; dn what has been written; tot bytes returned so far; cnt elements written."""
    def reset(self, E): super().reset(E); self.allocs = 0
    def alloc(self, E, st, what, n, fallible, ty): pass
    def partition(self, E, st): return (st.g['ph'], st.g.get('fail'))
    def member_value(self, E, st, m): return E.proj(st, self.SELF, (0, self.index(E, self.SELF.ty, m)))
    def canon(self, E, st):
        if self.d.kind != 'struct': return
        dn = dict(st.g['dn']); ch = False
        for m in self.d.m:
            if not m.req and m.id not in dn:
                v = self.member_value(E, st, m)
                if E.known_variant(st, v) == self.none_some(E, v.ty)[0]: dn[m.id] = 'N'; ch = True
        if ch: st.g['dn'] = tuple(sorted(dn.items()))
    def join_ghost(self, E, a, b, k, x, y):
        if k != 'dn' or x is None or y is None: return None
        p, q = dict(x), dict(y); out = {}
        for i in set(p) | set(q):
            s = {p.get(i), q.get(i)}
            if len(s) == 1: out[i] = p[i]
            elif s <= {'W', 'N', 'WN'}: out[i] = 'WN'
            elif s == {None, 'N'}: pass
            else: return None
        return [tuple(sorted(out.items()))]
    def join_ints(self, E, where, x, y): return x.w == 64
    def ev_ok(self, E, st, rty, m):
        """success: a fresh count is returned and added to the total."""
        f = self.failed(E, st, rty, m)
        n = E.fresh(st, ('ev', 'n'))
        pt = E.payload_ty(rty, 'Ok')
        if E.T[pt]['k'] == 'int':
            BASE[(n, 64, False)] = (0, 1 << 48)
            v = mksym(n, 64, False)
            t = st.f.binop('AddUnchecked', st.g['tot'], v)
            l = lin_of(t)
            if l is None: raise Stuck('total')
            if l[1]: st.f.set_range(l, 0, 1 << 60)
            st.g['tot'] = st.f.simp(t)
        else: v = E.mk(pt, n)
        return [(st, E.ok(rty, v)), f]
    def step(self, E, st, tr, m, sty, args, rty):
        ph = st.g['ph']
        if tr == 'schema':
            if m not in WRITERS: return self.bad(E, st, 'io', 'a reader is called while writing')
            if (m == 'write_to_out_stream_protocol') != self.asyn: raise Stuck('mixed sync and async writers')
            self.recv(E, st, args[1])
            return self.value(E, st, m, sty, args, rty)
        self.recv(E, st, args[0])
        if m == 'write_struct_begin':
            if ph[0] != 'init': return self.bad(E, st, 'state', 'a structure begins inside %s' % (ph,))
            st.g['ph'] = ('in',); return self.ev_ok(E, st, rty, m)
        if m == 'write_field_begin':
            if ph[0] != 'in': return self.bad(E, st, 'state', 'a field begins in phase %s' % (ph[0],))
            idn = models.rd(E, st, args[1])
            o = self.fld(E, st, idn, 'id')
            k = E.known_variant(st, o)
            if k is None or E.T[o.ty]['v'][k]['n'] != 'Some': return self.bad(E, st, 'io', 'a field begins without an id')
            i = st.f.simp(E.proj(st, o, (k, 0)))
            mem = next((x for x in self.d.m if i.k == 'c' and x.id == i.x), None)
            if mem is None: return self.bad(E, st, 'schema', 'the field id %r is not one of %s' % (i, self.d.name))
            tn = self.vname(E, st, self.fld(E, st, idn, 'field_type'))
            if tn != [wire(mem.type)]: return self.bad(E, st, 'schema', 'member %s (id %d) is written with wire type %s instead of %s' % (mem.name, mem.id, '/'.join(tn), wire(mem.type)))
            dn = dict(st.g['dn'])
            if any(j > mem.id for j, s in dn.items() if s in ('W', 'WN') and j != 'u'): self.bad(E, st, 'order', 'member %s is written after a member with a larger id' % mem.name)
            if self.d.kind == 'union':
                uv = E.known_variant(st, self.SELF)
                if uv is None or E.T[self.SELF.ty]['v'][uv]['n'] != mem.name: return self.bad(E, st, 'value', 'writes the member %s although it is not known to be the active one' % mem.name)
                if 'u' in dn: return self.bad(E, st, 'value', 'writes a second member of the union')
                v = E.proj(st, self.SELF, (uv, 0)); dn['u'] = 'W'
            else:
                v = self.member_value(E, st, mem)
                if dn.get(mem.id) in ('W', 'WN'): return self.bad(E, st, 'value', 'the member %s is written twice' % mem.name)
                if not mem.req:
                    no, so = self.none_some(E, v.ty)
                    if E.known_variant(st, v) != so: return self.bad(E, st, 'value', 'the optional member %s is written although it is not known to be present' % mem.name)
                    v = E.proj(st, v, (so, 0))
                dn[mem.id] = 'W'
            st.g['dn'] = tuple(sorted(dn.items(), key=str))
            st.g['ph'] = ('val', mem.id, v); return self.ev_ok(E, st, rty, m)
        if m == 'write_field_end':
            if ph[0] != 'fe': return self.bad(E, st, 'state', 'a field ends in phase %s' % (ph[0],))
            st.g['ph'] = ('in',); return self.ev_ok(E, st, rty, m)
        if m == 'write_field_stop':
            if ph[0] != 'in': return self.bad(E, st, 'state', 'the stop is written in phase %s' % (ph[0],))
            self.complete(E, st)
            st.g['ph'] = ('stop',); return self.ev_ok(E, st, rty, m)
        if m == 'write_struct_end':
            if ph[0] != 'stop': return self.bad(E, st, 'state', 'the structure ends in phase %s' % (ph[0],))
            st.g['ph'] = ('end',); return self.ev_ok(E, st, rty, m)
        if m == 'write_list_end':
            if ph[0] != 'list': return self.bad(E, st, 'io', 'a list ends in phase %s' % (ph[0],))
            n = E.seq_len(ph[2])
            if st.f.truth(st.f.cmp('Eq', n, st.g['cnt'])) is not True: return self.bad(E, st, 'value', 'the list of member %d ends after %r of its %r elements' % (ph[1], st.f.simp(st.g['cnt']), n))
            st.g['ph'] = ('fe', ph[1]); st.g['cnt'] = None; return self.ev_ok(E, st, rty, m)
        if m == 'flush': return self.bad(E, st, 'io', 'flushes while writing a structure')
        return self.value(E, st, m, None, args, rty)
    def complete(self, E, st):
        self.canon(E, st); dn = dict(st.g['dn'])
        if self.d.kind == 'union':
            if 'u' not in dn: self.bad(E, st, 'value', 'no member of the union is written')
            return
        for m in self.d.m:
            s = dn.get(m.id)
            if s == 'W' or (not m.req and s in ('WN', 'N')): continue
            self.bad(E, st, 'value', 'the %s member %s may be missing from the output' % ('required' if m.req else 'optional, present', m.name))
    def value(self, E, st, m, sty, args, rty):
        ph = st.g['ph']
        if ph[0] == 'val':
            mem = next(x for x in self.d.m if x.id == ph[1])
            if mem.type[0] == 'list':
                if m != 'write_list_begin': return self.bad(E, st, 'schema', 'member %s is written by %s instead of as a list' % (mem.name, m))
                idn = models.rd(E, st, args[1])
                et = self.vname(E, st, self.fld(E, st, idn, 'element_type'))
                if et != [wire(mem.type[1:])]: return self.bad(E, st, 'schema', 'the list %s has element type %s instead of %s' % (mem.name, '/'.join(et), wire(mem.type[1:])))
                size = st.f.cast(self.fld(E, st, idn, 'size'), 64, False)
                n = E.seq_len(ph[2])
                if st.f.truth(st.f.cmp('Eq', size, n)) is not True: return self.bad(E, st, 'value', 'the list %s is announced with %r instead of %r elements' % (mem.name, size, n))
                st.g['ph'] = ('list', ph[1], ph[2]); st.g['cnt'] = C(0, 64, False)
                return self.ev_ok(E, st, rty, m)
            r = self.one(E, st, mem, mem.type, ph[2], m, sty, args)
            if r is not None: return self.bad(E, st, *r)
            st.g['ph'] = ('fe', ph[1]); return self.ev_ok(E, st, rty, m)
        if ph[0] == 'list':
            mem = next(x for x in self.d.m if x.id == ph[1])
            n = E.seq_len(ph[2])
            if st.f.truth(st.f.cmp('Lt', st.g['cnt'], n)) is not True: return self.bad(E, st, 'value', 'more elements than the list %s has are written' % mem.name)
            r = self.one(E, st, mem, mem.type[1:], E.elem(st, ph[2], st.g['cnt']), m, sty, args)
            if r is not None: return self.bad(E, st, *r)
            st.g['cnt'] = st.f.binop('Add', st.g['cnt'], C(1, 64, False))
            return self.ev_ok(E, st, rty, m)
        return self.bad(E, st, 'io', '%s in phase %s' % (m, ph[0]))
    def one(self, E, st, mem, t, v, m, sty, args):
        """is this event the writing of value v of type t?  None or (aspect, message)."""
        if t[0] in WOP:
            if m != WOP[t[0]]: return 'schema', 'a value of type %s of member %s is written by %s' % (t[0], mem.name, m if sty is None else 'the writer of %s' % sty)
            a = args[1]
            if v.__class__ is Int:
                if a.__class__ is Int and (a == v or st.f.truth(st.f.cmp('Eq', a, v)) is True): return None
            elif a.__class__ is Ref:
                x = models.content(E, st, a)
                if E.term(x) == E.term(v): return None
                return 'value', 'member %s is written with other contents: %s' % (mem.name, tstr(E.term(x))[:100])
            return 'value', 'member %s is written with another value: %r' % (mem.name, a)
        d = SPEC[t[0]]
        if sty is None and d.kind == 'enum' and m == 'write_i32':
            w = E.proj(st, v, (0, 0))
            if args[1] == w or st.f.truth(st.f.cmp('Eq', args[1], w)) is True: return None
            return 'value', 'member %s is written with another number: %r' % (mem.name, args[1])
        if sty != t[0]: return 'schema', 'a value of type %s of member %s is written by %s' % (t[0], mem.name, m if sty is None else 'the writer of %s' % sty)
        x = models.deref(E, st, args[0])
        if E.term(x) == E.term(v): return None
        return 'value', 'another value than member %s is written: %r' % (mem.name, x)

def start(P, key, cl, proto_arg):
    b = P.bodies[key]
    E = Engine(P, cl, unroll=2)
    E.MAX_STEPS = 200000
    args = [E.mk(t, ('arg', i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]
    cl.region = args[proto_arg].r
    return E, args, b
def result(cl, E, exits): return cl.viol, {'exits': len(exits), 'steps': E.steps, 'events': cl.nev, 'analysed': sorted(E.analysed)}

from proto import ok_err
def check_write(P, key, name):
    d = SPEC[name]
    cl = WriteClient(d)
    E, args, b = start(P, key, cl, 1)
    cl.asyn = returns_future(P, key)
    cl.SELF = E.region(type('S', (), {'mem': {}})(), args[0].r)
    if d.kind == 'enum': return check_enum_write(P, key, E, cl, args)
    exits = E.run(key, args, {'ph': ('init',), 'fail': None, 'dn': (), 'tot': C(0, 64, False), 'cnt': None}, asyn=cl.asyn)
    oks = 0
    for ex in exits:
        r = ok_err(E, cl, ex, None)
        if r is None: continue
        n, p = r; st = ex.st
        if n == 'Err':
            # a list longer than the wire format can announce
            if p.__class__ is Opq and p.t[0] == 'from' and p.t[1].endswith('TryFromIntError') and st.g['ph'][0] == 'val' and st.f.truth(st.f.cmp('Lt', E.seq_len(st.g['ph'][2]), C(1 << 32, 64, False))) is False: continue
            cl.viol.append(('err-valid', 'returns the error %s while writing a value' % (error_cat(E, st, p),), ex.span)); continue
        oks += 1
        if st.g['ph'][0] != 'end': cl.viol.append(('state', 'returns success in phase %s' % (st.g['ph'][0],), ex.span))
        elif p.__class__ is not Int or not (p == st.g['tot'] or st.f.truth(st.f.cmp('Eq', p, st.g['tot'])) is True):
            cl.viol.append(('count', 'returns %r where the writes returned %r in total' % (p, st.g['tot']), ex.span))
    if not oks and not any(v[0] == 'stuck' for v in cl.viol): cl.viol.append(('err-valid', 'no path writes the value successfully', b.get('span')))
    return result(cl, E, exits)

# ---- readers ----------------------------------------------------------------------------------
CUR = lambda k: ('ev', 'cur', k)
OPT = lambda k: ('ev', 'opt', k)
class ReadClient(SchemaClient):
    """ghosts: ph phase; ('s', id) whether the id has been seen (n/y/a = any); nf, k1 for unions."""
    def partition(self, E, st): return (st.g['ph'], st.g.get('fail'), st.g['nf'], st.g['k1'], st.g['miss'])
    def atstop(self, E, st):
        ph = st.g['ph']
        return ph[0] == 'end' or ph[0] == 'fld' and self.vname(E, st, self.fld(E, st, ph[1], 'field_type')) == ['Stop']
    # -- the value read last for id k is CUR(k); an Option holding it iff seen is OPT(k)
    def isopt(self, E, ty): return ty is not None and E.T[ty].get('path') == 'core::option::Option'
    def curk(self, p):
        if p.__class__ is Int and p.k == 'l' and p.x[0] == 0 and len(p.x[1]) == 1 and p.x[1][0][1] == 1:
            n = p.x[1][0][0][0]
            return n[2] if isinstance(n, tuple) and n[:2] == ('ev', 'cur') else None
        if p.__class__ is Opq: return p.t[2] if p.t[:2] == ('ev', 'cur') else None
        if p.__class__ is Agg and len(p.f) == 1: return self.curk(p.f[0])      # newtype of an enum
        return None
    def kind(self, E, v):
        if v.__class__ is Opq and v.t[:2] == ('ev', 'opt'): return ('opt', v.t[2])
        if v.__class__ is Agg and self.isopt(E, v.ty):
            if E.T[v.ty]['v'][v.v]['n'] == 'None': return ('none', None)
            if v.f and v.f[0] is not None:
                k = self.curk(v.f[0])
                if k is not None: return ('some', k)
        return None
    def join_value(self, E, a, b, where, x, y):
        for s, t, p, q in ((a, b, x, y), (b, a, y, x)):
            kp = self.kind(E, p); kq = self.kind(E, q)
            if kp is None or kq is None: return None
            if kq[0] == 'none' and kp[0] in ('some', 'opt'):
                k = kp[1]
                if t.g.get(('s', k)) == 'n' and (kp[0] == 'opt' or s.g.get(('s', k)) == 'y'): return Opq(p.ty, OPT(k))
            if kp[0] == 'opt' and kq == ('some', kp[1]) and t.g.get(('s', kp[1])) == 'y': return p
        return None
    def join_ghost(self, E, a, b, k, x, y):
        if isinstance(k, tuple) and k[0] == 's': return ['a']
        return None
    def join_ints(self, E, where, x, y): return self.nf2
    nf2 = False
    def canon(self, E, st):
        if self.d.kind == 'struct' and not st.g['miss'] and self.atstop(E, st):
            st.g['miss'] = any(m.req and self.seen_known(E, st, m) == 'n' for m in self.d.m)
        if st.g['nf'] != 2: return
        for r, v in list(st.mem.items()):
            if v is not None and v.__class__ in (Agg, Opq) and self.isopt(E, v.ty) and E.T[v.ty]['args'][0] == self.rty and not (v.__class__ is Opq and v.t == ('ev', 'junk')):
                st.mem[r] = Opq(v.ty, ('ev', 'junk'))
    def project(self, E, st, v, e):
        if v.t[:2] == ('ev', 'opt') and E.T[v.ty]['v'][e[0]]['n'] == 'Some' and e[1] == 0: return self.mint(E, E.field_ty(v.ty, e[0], 0), v.t[2])
        return None
    def mint(self, E, ty, k):
        t = E.T[ty]
        if t['k'] in ('int', 'bool'): return E.mk(ty, CUR(k))
        return Opq(ty, CUR(k))
    def forget(self, E, st, k):
        """what was read for id k before is no longer the latest value."""
        m = {CUR(k): ('ev', 'old', k), OPT(k): ('ev', 'oldopt', k)}
        st.f.keep(lambda key: not (occ(key) & (set(m) | set(m.values()))))
        for r, v in list(st.mem.items()):
            if v is not None and occ(v) & set(m): st.mem[r] = subst(v, m)
    def member(self, E, st, ident):
        """the member the field header denotes: Member, 'unknown', 'noid' or None (undetermined)."""
        o = self.fld(E, st, ident, 'id')
        k = E.known_variant(st, o)
        if k is None: return None
        if E.T[o.ty]['v'][k]['n'] == 'None': return 'noid'
        i = st.f.simp(E.proj(st, o, (k, 0)))
        if i.k == 'c': return next((m for m in self.d.m if m.id == i.x), 'unknown')
        for m in self.d.m:
            if st.f.truth(st.f.cmp('Eq', i, C(m.id, i.w, i.sg))) is not False: return None
        return 'unknown'
    def seen_known(self, E, st, m):
        s = st.g[('s', m.id)]
        if s != 'a': return s
        ty = self.optty.get(m.id)
        if ty is None: return 'a'
        k = E.known_variant(st, Opq(ty, OPT(m.id)))
        return 'a' if k is None else ('n' if E.T[ty]['v'][k]['n'] == 'None' else 'y')
    def intercept(self, E, st, c, args, rty):
        if c.get('m') == 'from' and c.get('trait') == 'core::convert::From' and len(args) == 1 and rty is not None:
            p = E.path_of(rty); v = args[0]
            while v.__class__ is Ref: v = E.read(st, (v.r, v.p))
            if p and '::parquet_format::' in p and short(p) in SPEC and v.__class__ is Int:
                k = self.curk(v)
                if k is not None: return Opq(rty, CUR(k))
        return super().intercept(E, st, c, args, rty)
    def step(self, E, st, tr, m, sty, args, rty):
        ph = st.g['ph']
        if tr == 'schema':
            if m not in READERS: return self.bad(E, st, 'io', 'a writer is called while reading')
            if (m == 'stream_from_in_protocol') != self.asyn: raise Stuck('mixed sync and async readers')
        self.recv(E, st, args[0])
        if tr == 'schema': return self.value(E, st, m, sty, args, rty)
        if m == 'read_struct_begin' and ph[0] == 'init':
            f = self.failed(E, st, rty, m); v = E.mk(E.payload_ty(rty, 'Ok'), E.fresh(st, ('ev', 'sb')))
            st.g['ph'] = ('in',); return [(st, E.ok(rty, v)), f]
        if m == 'read_field_begin':
            if ph[0] != 'in': return self.bad(E, st, 'state', 'the next field begins in phase %s' % ph[0])
            f = self.failed(E, st, rty, m); v = E.mk(E.payload_ty(rty, 'Ok'), E.fresh(st, ('ev', 'fb')))
            st.g['ph'] = ('fld', v); return [(st, E.ok(rty, v)), f]
        if m == 'read_field_end' and ph[0] == 'fe':
            st.g['ph'] = ('in',); return self.both(E, st, rty, m)
        if m == 'read_field_end' and ph[0] == 'fld' and self.vname(E, st, self.fld(E, st, ph[1], 'field_type')) == ['Stop']: return self.both(E, st, rty, m)
        if m == 'read_struct_end' and ph[0] == 'fld':
            names = self.vname(E, st, self.fld(E, st, ph[1], 'field_type'))
            if names != ['Stop']: return self.bad(E, st, 'state', 'the structure is ended after the header of a field of type %s' % '/'.join(names))
            st.g['ph'] = ('end',); return self.both(E, st, rty, m)
        if m in ('read_struct_begin', 'read_struct_end', 'read_field_end'): return self.bad(E, st, 'state', '%s in phase %s' % (m, ph[0]))
        return self.value(E, st, m, None, args, rty)
    def both(self, E, st, rty, m):
        f = self.failed(E, st, rty, m)
        return [(st, E.ok(rty, E.mk(E.payload_ty(rty, 'Ok'), ('ev', 'unit')))), f]
    def value(self, E, st, m, sty, args, rty):
        ph = st.g['ph']
        if ph[0] != 'fld': return self.bad(E, st, 'io', '%s in phase %s' % (m, ph[0]))
        names = self.vname(E, st, self.fld(E, st, ph[1], 'field_type'))
        if 'Stop' in names: return self.bad(E, st, 'io', '%s although the header may be the stop' % m)
        mem = self.member(E, st, ph[1])
        if mem is None: return self.bad(E, st, 'io', '%s without having determined which member the field is' % m)
        if m == 'skip_till_depth': raise Stuck('skip_till_depth in a structure')
        if mem in ('unknown', 'noid'):
            if m != 'skip': return self.bad(E, st, 'unknown', 'an unknown field is consumed by %s' % m)
        elif m == 'skip': return self.bad(E, st, 'schema', 'the member %s (id %d) is skipped' % (mem.name, mem.id))
        if m == 'skip':
            if args[1] != self.fld(E, st, ph[1], 'field_type'): return self.bad(E, st, 'unknown', 'an unknown field is skipped with another type than the one in its header')
            self.count(st, 'unknown')
            st.g['ph'] = ('fe',); return self.both(E, st, rty, m)
        t = mem.type
        ok = (sty == t[0]) if sty is not None else m == ('read_list' if t[0] == 'list' else ROP.get(t[0])) or (m == 'read_i32' and t[0] in SPEC and SPEC[t[0]].kind == 'enum')
        if not ok: return self.bad(E, st, 'schema', 'the member %s (id %d, %s) is read by %s' % (mem.name, mem.id, ' '.join(t), m if sty is None else 'the reader of %s' % sty))
        f = self.failed(E, st, rty, m)
        first = self.count(st, mem.id)
        pt = E.payload_ty(rty, 'Ok')
        if self.d.kind == 'union' and not first: v = self.junk(E, pt)
        else:
            self.forget(E, st, mem.id)
            v = self.mint(E, pt, mem.id)
            if self.d.kind == 'struct': st.g[('s', mem.id)] = 'y'
        st.g['ph'] = ('fe',)
        return [(st, E.ok(rty, v)), f]
    def junk(self, E, ty): return E.mk(ty, ('ev', 'later'))
    def count(self, st, k):
        if self.d.kind != 'union': return True
        st.g['nf'] = min(2, st.g['nf'] + 1)
        st.g['k1'] = k if st.g['nf'] == 1 else None
        if st.g['nf'] == 2: self.nf2 = True
        return st.g['nf'] == 1

def check_read(P, key, name):
    d = SPEC[name]
    if d.kind == 'enum': return check_enum_read(P, key, name)
    cl = ReadClient(d)
    E, args, b = start(P, key, cl, 0)
    cl.asyn = returns_future(P, key)
    tys = [i for i, t in enumerate(E.T) if t['k'] == 'adt' and t['path'].endswith('::parquet_format::' + name)]
    if len(tys) != 1: raise Stuck('type ' + name)
    cl.rty = ty = tys[0]; cl.optty = {}
    if d.kind == 'struct':
        have = [f[0] for f in E.T[ty]['v'][0]['f']]
        if sorted(have) != sorted(m.name for m in d.m): return [('schema', '%s has the members %s, published are %s' % (name, sorted(have), sorted(m.name for m in d.m)), None)], {}
        opt = {t['args'][0]: i for i, t in enumerate(E.T) if t['k'] == 'adt' and t['path'] == 'core::option::Option'}
        for m in d.m:
            ft = E.T[ty]['v'][0]['f'][cl.index(E, ty, m)][1]
            isopt = cl.isopt(E, ft)
            if isopt == bool(m.req): return [('schema', 'the member %s of %s is %s, published is %s' % (m.name, name, 'optional' if isopt else 'required', 'required' if m.req else 'optional'), None)], {}
            cl.optty[m.id] = ft if isopt else opt.get(ft)
    else:
        have = [v['n'] for v in E.T[ty]['v']]
        if sorted(have) != sorted(m.name for m in d.m): return [('schema', '%s has the members %s, published are %s' % (name, sorted(have), sorted(m.name for m in d.m)), None)], {}
    g = {'ph': ('init',), 'fail': None, 'nf': 0, 'k1': None, 'miss': False}
    if d.kind == 'struct':
        for m in d.m: g[('s', m.id)] = 'n'
        g['names'] = tuple(OPT(m.id) for m in d.m)      # what is known about these survives their last use
    exits = E.run(key, args, g, asyn=cl.asyn)
    oks = set()
    for ex in exits:
        r = ok_err(E, cl, ex, None)
        if r is None: continue
        n, p = r; st = ex.st; ph = st.g['ph']
        atstop = cl.atstop(E, st); cl.canon(E, st)
        if n == 'Err':
            cat = error_cat(E, st, p)
            why = None
            if ph[0] == 'fld' and not atstop:
                k = cl.member(E, st, ph[1])
                if k == 'noid': why = 'a field without an id'
                elif d.kind == 'union' and (k == 'unknown' or st.g['nf'] >= 1) and 'Stop' not in cl.vname(E, st, cl.fld(E, st, ph[1], 'field_type')): why = 'not exactly one known member'
            elif ph[0] in ('fe', 'in') and d.kind == 'union' and (st.g['nf'] == 2 or st.g['k1'] == 'unknown'): why = 'not exactly one known member'
            elif atstop:
                if d.kind == 'union':
                    if st.g['nf'] != 1 or st.g['k1'] == 'unknown': why = 'not exactly one known member'
                else:
                    if st.g['miss']: why = 'a missing member'
            if why is None: cl.viol.append(('err-valid', 'returns the error %s for a valid %s' % (cat, d.kind), ex.span))
            elif cat[0] != 'Protocol': cl.viol.append(('err', 'reports %s as %s' % (why, cat), ex.span))
            continue
        if ph[0] != 'end':
            cl.viol.append(('state', 'returns success in phase %s: the structure is not read to its end' % ph[0], ex.span)); continue
        if d.kind == 'union':
            if st.g['nf'] != 1 or st.g['k1'] == 'unknown':
                cl.viol.append(('value', 'succeeds although the input holds %s' % ('no field', 'one unknown field', 'several fields')[st.g['nf']], ex.span)); continue
            m = next(x for x in d.m if x.id == st.g['k1'])
            oks.add(m.id)
            if p.__class__ is not Agg or p.ty is None or E.T[p.ty]['v'][p.v]['n'] != m.name or cl.curk(p.f[0]) != m.id:
                cl.viol.append(('value', 'the member %s was read but the result is %r' % (m.name, p), ex.span))
            continue
        oks.add(0)
        for m in d.m:
            v = E.proj(st, p, (0, cl.index(E, ty, m)))
            s = cl.seen_known(E, st, m)
            if m.req:
                if s != 'y': cl.viol.append(('required', 'succeeds although the required member %s may be missing' % m.name, ex.span))
                if cl.curk(v) != m.id: cl.viol.append(('value', 'the required member %s of the result is %r instead of the value last read for id %d' % (m.name, v, m.id), ex.span))
                continue
            k = cl.kind(E, v)
            if k == ('opt', m.id) or k == ('some', m.id) and s == 'y' or k is not None and k[0] == 'none' and s == 'n': continue
            cl.viol.append(('value', 'the optional member %s of the result is %r instead of what was last read for id %d' % (m.name, v, m.id), ex.span))
    if not any(v[0] == 'stuck' for v in cl.viol):
        if d.kind == 'union':
            for m in d.m:
                if m.id not in oks: cl.viol.append(('err-valid', 'no path succeeds for the member %s' % m.name, b.get('span')))
        elif not oks: cl.viol.append(('err-valid', 'no path succeeds', b.get('span')))
    return result(cl, E, exits)

# ---- enums ------------------------------------------------------------------------------------
class EnumClient(SchemaClient):
    def partition(self, E, st): return st.g['n']
    def step(self, E, st, tr, m, sty, args, rty):
        if st.g['n']: return self.bad(E, st, 'io', 'more than one operation')
        if tr == 'schema': raise Stuck('schema call in an enum')
        self.recv(E, st, args[0])
        if m != self.want: return self.bad(E, st, 'io', '%s instead of %s' % (m, self.want))
        st.g['n'] = 1
        if self.want == 'write_i32':
            w = E.proj(st, self.SELF, (0, 0))
            if not (args[1] == w or st.f.truth(st.f.cmp('Eq', args[1], w)) is True): return self.bad(E, st, 'value', 'another number than the value\'s is written: %r' % (args[1],))
        f = self.failed(E, st, rty, m)
        v = E.mk(E.payload_ty(rty, 'Ok'), ('ev', 'res')); st.g['res'] = v
        return [(st, E.ok(rty, v)), f]
def newtype_int(E, st, v):
    if v.__class__ is Agg and len(v.f) == 1 and v.f[0].__class__ is Int: return v.f[0]
    return None
def check_enum_write(P, key, E, cl0, args):
    cl = EnumClient(cl0.d); cl.region = cl0.region; cl.SELF = cl0.SELF; cl.want = 'write_i32'
    E = Engine(P, cl, unroll=2)
    exits = E.run(key, args, {'n': 0, 'fail': None}, asyn=returns_future(P, key))
    for ex in exits:
        r = ok_err(E, cl, ex, None)
        if r is None: continue
        n, p = r
        if n == 'Err': cl.viol.append(('err-valid', 'returns an error of its own', ex.span))
        elif not ex.st.g['n']: cl.viol.append(('io', 'succeeds without writing the number', ex.span))
        elif p != mksym(('ev', 'res'), 64, False): cl.viol.append(('count', 'returns %r instead of the count' % (p,), ex.span))
    return result(cl, E, exits)
def check_enum_read(P, key, name):
    cl = EnumClient(SPEC[name]); cl.want = 'read_i32'
    E, args, b = start(P, key, cl, 0)
    exits = E.run(key, args, {'n': 0, 'fail': None}, asyn=returns_future(P, key))
    for ex in exits:
        r = ok_err(E, cl, ex, None)
        if r is None: continue
        n, p = r; st = ex.st
        if n == 'Err': cl.viol.append(('err-valid', 'rejects the number %r' % (st.f.simp(mksym(('ev', 'res'), 32, True)),), ex.span)); continue
        if not st.g['n']: cl.viol.append(('io', 'succeeds without reading the number', ex.span)); continue
        keeps(E, st, cl, p, mksym(('ev', 'res'), 32, True), ex.span, 'reading')
    return result(cl, E, exits)
def keeps(E, st, cl, v, n, span, what):
    w = newtype_int(E, st, v)
    if w is None or not (w == n or st.f.truth(st.f.cmp('Eq', w, n)) is True):
        cl.viol.append(('value', '%s the number %r yields %r' % (what, st.f.simp(n), v if w is None else w), span))
class PureClient(SchemaClient):
    def step(self, E, st, tr, m, sty, args, rty): return self.bad(E, st, 'io', 'operation in a pure function')
def check_enum_conv(P, key, name, to_int):
    """From<i32>, From<&i32> (to_int False) and From<Enum> for i32 (to_int True): the identity on numbers."""
    cl = PureClient(SPEC[name])
    b = P.bodies[key]
    E = Engine(P, cl, unroll=2)
    args = [E.mk(t, ('arg', i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]
    cl.region = None
    exits = E.run(key, args, {'fail': None, 'arg': models.deref(E, type('S', (), {'mem': {}})(), args[0])})
    for ex in exits:
        st = ex.st
        if ex.kind != 'ret': cl.viol.append(('stuck' if ex.kind == 'stuck' else 'panic', str(ex.val), ex.span)); continue
        x = models.deref(E, st, args[0])
        if to_int:
            w = E.proj(st, x, (0, 0))
            if not (ex.val == w or st.f.truth(st.f.cmp('Eq', ex.val, w)) is True): cl.viol.append(('value', 'the number of %r becomes %r' % (w, ex.val), ex.span))
        else: keeps(E, st, cl, ex.val, x, ex.span, 'converting')
    if not exits: cl.viol.append(('value', 'never returns', b.get('span')))
    return result(cl, E, exits)
def check_enum_table(P, name):
    """the named constants and ENUM_VALUES."""
    d = SPEC[name]; out = []; n = 0
    pre = '::parquet_format::%s::' % name
    have = {}
    for path, c in P.consts.items():
        if pre in path: have[path.split(pre)[1]] = c
    def num(v):
        while v and v[0] == 'agg' and len(v[3]) == 1: v = v[3][0]
        return int(v[2]) if v and v[0] == 'int' else None
    for vn, x in d.values:
        c = have.get(vn)
        if c is None: out.append(('missing', 'no constant %s::%s' % (name, vn), None)); continue
        n += 1
        if num(c[1]) != x: out.append(('value', '%s::%s is %s, published is %d' % (name, vn, num(c[1]), x), None))
    ev = have.get('ENUM_VALUES')
    if ev is not None:
        l = ev[1]
        if l[0] == 'ref': l = l[2]
        xs = [num(x) for x in (l[2] if l[0] == 'slice' else l[3])]
        if None in xs or sorted(xs) != sorted(x for _, x in d.values): out.append(('value', '%s::ENUM_VALUES lists %s' % (name, xs), None))
        n += 1
    return out, {'constants': n}

def obs(P, feature):
    from obligations import Ob, missing
    out = []
    tyname = {}
    for i, t in enumerate(P.T):
        if t['k'] == 'adt' and '::parquet_format::' in t['path'] and short(t['path']) in SPEC: tyname[i] = short(t['path'])
    by = {}
    for r in P.roots:
        n = tyname.get(r.get('impl_self'))
        if n: by.setdefault(n, []).append(r)
    for name, d in SPEC.items():
        rs = by.get(name, [])
        def pick(fam, side, pred, fn, what, args):
            ks = [r for r in rs if pred(r)]
            if len(ks) != 1: out.append(Ob(fam, name, side, missing('%s has %d instead of one %s' % (name, len(ks), what)), (), feature))
            else: out.append(Ob(fam, name, side, fn, (ks[0]['key'],) + args, feature))
        sides = [('sync', 'write_to_out_protocol', 'read_from_in_protocol', 'ReadThrift')]
        if feature != 'none': sides.append(('async', 'write_to_out_stream_protocol', 'stream_from_in_protocol', 'AsyncReadThrift'))
        for side, w, rd, tr in sides:
            pick('schema-write', side, lambda r: r['name'] == w and not r.get('impl_trait'), check_write, w, (name,))
            pick('schema-read', side, lambda r: r['name'] == rd and short(r.get('impl_trait') or '') == tr, check_read, 'implementation of ' + tr, (name,))
            if d.kind != 'enum': pick('schema-read-fn', side, lambda r: r['name'] == rd and not r.get('impl_trait'), check_read, rd, (name,))
        if d.kind == 'enum':
            out.append(Ob('enum-table', name, 'sync', check_enum_table, (name,), feature))
            for r in rs:
                if r['name'] == 'from' and r.get('impl_trait') == 'core::convert::From': out.append(Ob('enum-conv', name + '@' + P.ts(r['impl_targs'][0]), 'sync', check_enum_conv, (r['key'], name, False), feature))
            back = [r for r in P.roots if r['name'] == 'from' and r.get('impl_trait') == 'core::convert::From' and P.ts(r.get('impl_self')) == 'i32' and tyname.get(strip(P, r['impl_targs'][0])) == name]
            for r in back: out.append(Ob('enum-conv', name + '@to-' + P.ts(r['impl_targs'][0])[:1], 'sync', check_enum_conv, (r['key'], name, True), feature))
            if not back or not any(o.fam == 'enum-conv' and o.subject == name + '@i32' for o in out): out.append(Ob('enum-conv', name, 'sync', missing('%s is not convertible from or to i32' % name), (), feature))
    return out
def strip(P, t):
    while P.T[t]['k'] == 'ref': t = P.T[t]['e']
    return t
