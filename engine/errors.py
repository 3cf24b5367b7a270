"""Rules for the error layer: classification of foreign errors, numeric kinds, the expectation checks, and
the wire form of application errors."""
from events import *
from domain import lin_of
from engine import subst, occ
from codec import Replay, Mismatch, Infeasible, next_dec, error_cat
from schema import SchemaClient
from proto import ok_err
import varint, models

NUM = {
 'TransportErrorKind': ['Unknown', 'NotOpen', 'AlreadyOpen', 'TimedOut', 'EndOfFile', 'NegativeSize', 'SizeLimit'],
 'ProtocolErrorKind': ['Unknown', 'InvalidData', 'NegativeSize', 'SizeLimit', 'BadVersion', 'NotImplemented', 'DepthLimit'],
 'ApplicationErrorKind': ['Unknown', 'UnknownMethod', 'InvalidMessageType', 'WrongMethodName', 'BadSequenceId', 'MissingResult', 'InternalError', 'ProtocolError', 'InvalidTransform', 'InvalidProtocol', 'UnsupportedClientType'],
}
IOMAP = {'ConnectionReset': 'NotOpen', 'ConnectionRefused': 'NotOpen', 'NotConnected': 'NotOpen', 'AlreadyExists': 'AlreadyOpen', 'TimedOut': 'TimedOut', 'UnexpectedEof': 'EndOfFile'}
MSGNUM = {'Call': 1, 'Reply': 2, 'Exception': 3, 'OneWay': 4}

def parts(o, v):
    """class, kind and message of a value of the error type."""
    n, k = o.variant(v)
    p = o.E.proj(o.st(), v, (k, 0))
    return n, o.fld(p, 'kind'), o.fld(p, 'message'), p
def kindname(o, k): return o.variant(k)[0]
def expect(o, v, cls, kind):
    n, k, m, p = parts(o, v)
    kn = kindname(o, k)
    if (n, kn) != (cls, kind): raise Mismatch('err', 'reports %s %s where it must be %s %s' % (n, kn, cls, kind))
    return m
def pure(P, key, fn): return varint.run_all(P, key, None, fn)
def deref(E, ex, v): return models.deref(E, ex.st, v)

def check_from(P, key, src):
    def fn(E, ex, o, args):
        v = ex.val; a = args[0]
        if src == 'alloc::string::String' or src == '&str':
            m = expect(o, v, 'Application', 'Unknown')
            t = E.term(models.content(E, ex.st, a)) if a.__class__ is Ref else E.term(a)
            if E.term(m) != t: raise Mismatch('value', 'the message becomes %s' % tstr(E.term(m)))
        elif short(src) in ('TransportError', 'ProtocolError', 'ApplicationError'):
            n, k, m, p = parts(o, v)
            if n != short(src)[:-5] or not o.same(p, a): raise Mismatch('value', 'a %s becomes %s of another value' % (short(src), n))
        elif src.endswith('io::error::Error'):
            # every kind a transport can report, one by one
            kt = next(i for i, t in enumerate(E.T) if t['k'] == 'adt' and t['path'].endswith('io::error::ErrorKind'))
            kn = kindname(o, E.mk(kt, ('iokind', E.term(a))))
            expect(o, v, 'Transport', IOMAP.get(kn, 'Unknown'))
        elif src.endswith('TryReserveError'): expect(o, v, 'Protocol', 'SizeLimit')
        elif src.endswith('FromUtf8Error') or src.endswith('TryFromIntError'): expect(o, v, 'Protocol', 'InvalidData')
    viol, st = pure(P, key, fn)
    if src in ('!',): viol = []
    return viol, st

def check_tryfrom(P, key, tyname, table):
    def fn(E, ex, o, args):
        n, p = varint.result_of(E, ex)
        a = args[0]
        for i, nm in table:
            if o.branch(o.f.cmp('Eq', a, C(i, a.w, a.sg))):
                if n != 'Ok': raise Mismatch('err', 'rejects %d, the number of %s::%s' % (i, tyname, nm))
                if kindname(o, p) != nm: raise Mismatch('value', 'turns %d into %s instead of %s' % (i, kindname(o, p), nm))
                return
        if n == 'Ok': raise Mismatch('err', 'turns a number that denotes nothing into %s::%s' % (tyname, kindname(o, p)))
    return pure(P, key, fn)
def check_into_u8(P, key):
    def fn(E, ex, o, args):
        n = kindname(o, args[0])
        if not o.eq(ex.val, C(MSGNUM[n], 8, False)): raise Mismatch('value', '%s becomes %r instead of %d' % (n, ex.val, MSGNUM[n]))
    return pure(P, key, fn)
def check_discr(P, tyname, table):
    out = []
    tys = [t for t in P.T if t['k'] == 'adt' and t['path'].split('::')[-1] == tyname and '::thrift::' in t['path']]
    if len(tys) != 1: return [('missing', 'no enum %s' % tyname, None)], {}
    have = {v['n']: v['d'] for v in tys[0]['v']}
    for i, n in table:
        if have.get(n) != i: out.append(('value', '%s::%s is numbered %s instead of %d' % (tyname, n, have.get(n), i), None))
    for n in set(have) - {n for _, n in table}:
        out.append(('stuck', '%s has the variant %s, which the specification does not know' % (tyname, n), None))
    return out, {'constants': len(table)}

def check_ctor(P, key, cls, wrapped):
    def fn(E, ex, o, args):
        if wrapped:
            n, k, m, p = parts(o, ex.val)
            if n != cls: raise Mismatch('err', 'creates a %s error' % n)
        else: k, m = o.fld(ex.val, 'kind'), o.fld(ex.val, 'message')
        if not o.same(k, args[0]): raise Mismatch('err', 'does not keep the kind: %r' % (k,))
        if not occ(m) & {('arg', 1)} and ('arg', 1) not in flat(E.term(m)): raise Mismatch('value', 'does not keep the message: %s' % tstr(E.term(m)))
    return pure(P, key, fn)
def flat(t):
    out = []
    if isinstance(t, tuple):
        out.append(t)
        for x in t: out += flat(x)
    return out

def verdict(E, ex, o, ok, cls, kind, what):
    n, p = varint.result_of(E, ex)
    if (n == 'Ok') != ok: raise Mismatch('err' if ok else 'accept', ('rejects ' if ok else 'accepts ') + what)
    if n == 'Err': expect(o, p, cls, kind)
    return p
def check_verify(P, key, which):
    def fn(E, ex, o, args):
        a = [deref(E, ex, x) if which != 'call' else x for x in args]
        if which == 'seq':
            same = o.branch(o.f.cmp('Eq', a[0], a[1]))
            verdict(E, ex, o, same, 'Application', 'BadSequenceId', 'an %s sequence number' % ('equal' if same else 'other'))
        elif which == 'type':
            same = kindname(o, a[0]) == kindname(o, a[1])
            verdict(E, ex, o, same, 'Application', 'InvalidMessageType', 'an %s message type' % ('equal' if same else 'other'))
        elif which == 'call':
            same = o.branch(models.str_eq(E, ex.st, a[0], a[1]))
            verdict(E, ex, o, same, 'Application', 'WrongMethodName', 'an %s name' % ('equal' if same else 'other'))
        elif which == 'required':
            some = o.variant(a[1])[0] == 'Some'
            verdict(E, ex, o, some, 'Protocol', 'Unknown', 'a %s field' % ('present' if some else 'missing'))
        elif which == 'field_id':
            i = o.fld(a[0], 'id'); n, k = o.variant(i)
            p = verdict(E, ex, o, n == 'Some', 'Protocol', 'Unknown', 'a header %s id' % ('with an' if n == 'Some' else 'without'))
            if n == 'Some' and not o.eq(p, E.proj(o.st(), i, (k, 0))): raise Mismatch('value', 'returns %r' % (p,))
    return pure(P, key, fn)

# ---- application errors on the wire -----------------------------------------------------------------
class AppBase(SchemaClient):
    def __init__(self): EventClient.__init__(self)
    def may_panic(self, E, st): return False
    def intercept(self, E, st, c, args, rty): return EventClient.intercept(self, E, st, c, args, rty)
    def alloc(self, E, st, what, n, fallible, ty): pass
    def both(self, E, st, rty, m):
        f = self.failed(E, st, rty, m)
        return [(st, E.ok(rty, E.mk(E.payload_ty(rty, 'Ok'), ('ev', 'unit')))), f]

class AppWrite(AppBase):
    def partition(self, E, st): return (st.g['ph'], st.g.get('fail'))
    def step(self, E, st, tr, m, sty, args, rty):
        self.recv(E, st, args[0])
        ph = st.g['ph']
        def go(n): st.g['ph'] = n; return self.both(E, st, rty, m)
        if ph == 'init' and m == 'write_struct_begin': return go('s')
        if ph in ('s', 's1') and m == 'write_field_begin':
            want, ty, nxt = ((1, 'String', 'f1'), (2, 'I32', 'f2'))[ph == 's1']
            idn = models.rd(E, st, args[1])
            o = self.fld(E, st, idn, 'id'); k = E.known_variant(st, o)
            i = st.f.simp(E.proj(st, o, (k, 0))) if k is not None and E.T[o.ty]['v'][k]['n'] == 'Some' else None
            tn = self.vname(E, st, self.fld(E, st, idn, 'field_type'))
            if i is None or i.k != 'c' or i.x != want or tn != [ty]: return self.bad(E, st, 'value', 'field %r of type %s where field %d of type %s belongs' % (i, '/'.join(tn), want, ty))
            return go(nxt)
        if ph == 'f1' and m == 'write_string':
            x = models.content(E, st, args[1])
            if E.term(x) != E.term(self.err(E, st, 'message')): return self.bad(E, st, 'value', 'another text than the message is written: %s' % tstr(E.term(x))[:80])
            return go('e1')
        if ph == 'f2' and m == 'write_i32':
            kv = self.err(E, st, 'kind')
            for i in E.in_range_variants(st, kv):
                s = st.fork(); s.f = st.f.copy()
                n = E.T[kv.ty]['v'][i]['n']
                if not s.f.assume(s.f.cmp('Eq', E.discr(s, kv), C(E.T[kv.ty]['v'][i]['d'], 64, True)), True): continue
                if s.f.truth(s.f.cmp('Eq', args[1], C(NUM['ApplicationErrorKind'].index(n), 32, True))) is not True: return self.bad(E, st, 'value', 'the kind %s is not written as its number: %r' % (n, s.f.simp(args[1])))
            return go('e2')
        if ph in ('e1', 'e2') and m == 'write_field_end': return go('s1' if ph == 'e1' else 's2')
        if ph == 's2' and m == 'write_field_stop': return go('t')
        if ph == 't' and m == 'write_struct_end': return go('u')
        if ph == 'u' and m == 'flush': return go('done')
        return self.bad(E, st, 'io', '%s in phase %s' % (m, ph))
    def err(self, E, st, f): return self.fld(E, st, self.SELF, f)
def check_app_write(P, key):
    cl = AppWrite(); E = Engine(P, cl, unroll=2); b = P.bodies[key]
    args = [E.mk(t, ('arg', i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]
    cl.region = args[1].r; cl.SELF = E.region(type('S', (), {'mem': {}})(), args[0].r)
    exits = E.run(key, args, {'ph': 'init', 'fail': None})
    oks = 0
    for ex in exits:
        r = ok_err(E, cl, ex, None)
        if r is None: continue
        if r[0] == 'Err': cl.viol.append(('err-valid', 'returns an error of its own', ex.span)); continue
        oks += 1
        if ex.st.g['ph'] != 'done': cl.viol.append(('io', 'succeeds in phase %s' % ex.st.g['ph'], ex.span))
    if not oks and not cl.viol: cl.viol.append(('err-valid', 'never succeeds', b.get('span')))
    return cl.viol, {'exits': len(exits), 'steps': E.steps, 'events': cl.nev, 'analysed': sorted(E.analysed)}

MSGV, NUMV, KINDV = ('ev', 'msg'), ('ev', 'num'), ('ev', 'kind')
class AppRead(AppBase):
    """MSGV the message last read, NUMV the number last read, KINDV the kind that number denotes."""
    def partition(self, E, st): return (st.g['ph'], st.g.get('fail'), st.g['s1'], st.g['s2'])
    def canon(self, E, st):
        # a kind that the facts about the number determine is the kind of that number
        if st.g['s2'] != 'y' : return
        num = mksym(NUMV, 32, True)
        kty = self.kty
        for r, v in list(st.mem.items()):
            w = self.fold(E, st, v, num, kty)
            if w is not None: st.mem[r] = w
    def fold(self, E, st, v, num, kty):
        if v.__class__ is Agg and v.ty == kty and not v.f:
            n = E.T[kty]['v'][v.v]['n']
            return Opq(kty, KINDV) if self.denotes(st, num, n) else None
        if v.__class__ is Agg:
            for i, x in enumerate(v.f):
                w = self.fold(E, st, x, num, kty) if x is not None else None
                if w is not None: return Agg(v.ty, v.v, v.f[:i] + (w,) + v.f[i + 1:])
        return None
    def denotes(self, st, num, n):
        """do the facts imply that the number read denotes kind n?"""
        if st.g.get('deflt'): return False
        tab = NUM['ApplicationErrorKind']
        if n != 'Unknown': return st.f.truth(st.f.cmp('Eq', num, C(tab.index(n), 32, True))) is True
        return all(st.f.truth(st.f.cmp('Eq', num, C(i, 32, True))) is False for i in range(1, len(tab)))
    def forget(self, E, st, names):
        m = {n: ('ev', 'old') + n[1:] for n in names}
        st.f.keep(lambda key: not (occ(key) & (set(m) | set(m.values()))))
        for r, v in list(st.mem.items()):
            if v is not None and occ(v) & set(m): st.mem[r] = subst(v, m)
    def step(self, E, st, tr, m, sty, args, rty):
        self.recv(E, st, args[0])
        ph = st.g['ph']
        def go(s, n): s.g['ph'] = n; return self.both(E, s, rty, m)
        if ph[0] == 'init' and m == 'read_struct_begin':
            f = self.failed(E, st, rty, m); v = E.mk(E.payload_ty(rty, 'Ok'), E.fresh(st, ('ev', 'sb'))); st.g['ph'] = ('in',)
            return [(st, E.ok(rty, v)), f]
        if ph[0] == 'in' and m == 'read_field_begin':
            f = self.failed(E, st, rty, m)
            v = E.mk(E.payload_ty(rty, 'Ok'), E.fresh(st, ('ev', 'fb')))
            out = [f]
            ft = self.fld(E, st, v, 'field_type'); idv = self.fld(E, st, v, 'id')
            # the codec guarantees an id in every header but the stop
            stop = E.variant_index(ft.ty, 'Stop')
            for isstop in (True, False):
                s = st.fork(); s.f = st.f.copy()
                if not s.f.assume(s.f.cmp('Eq', E.discr(s, ft), C(E.T[ft.ty]['v'][stop]['d'], 64, True)), isstop): continue
                some = E.variant_index(idv.ty, 'Some')
                if not isstop and not s.f.assume(s.f.cmp('Eq', E.discr(s, idv), C(E.T[idv.ty]['v'][some]['d'], 64, True)), True): continue
                s.g['ph'] = ('stop',) if isstop else ('fld', v)
                out.append((s, E.ok(rty, v)))
            return out
        if ph[0] == 'fld':
            o = self.fld(E, st, ph[1], 'id')
            i = st.f.simp(E.proj(st, o, (E.variant_index(o.ty, 'Some'), 0)))
            def isid(n): return st.f.truth(st.f.cmp('Eq', i, C(n, i.w, i.sg)))
            if m == 'read_string':
                if isid(1) is not True: return self.bad(E, st, 'value', 'a field that need not be the message is read as the message')
                f = self.failed(E, st, rty, m); self.forget(E, st, [MSGV]); st.g['s1'] = 'y'; st.g['ph'] = ('fe', 1)
                return [(st, E.ok(rty, Opq(E.payload_ty(rty, 'Ok'), MSGV))), f]
            if m == 'read_i32':
                if isid(2) is not True: return self.bad(E, st, 'value', 'a field that need not be the kind is read as the kind')
                f = self.failed(E, st, rty, m); self.forget(E, st, [NUMV, KINDV]); st.g['s2'] = 'y'; st.g['ph'] = ('fe', 1)
                return [(st, E.ok(rty, mksym(NUMV, 32, True))), f]
            if m == 'skip':
                if isid(1) is not False or isid(2) is not False: return self.bad(E, st, 'value', 'the message or the kind is skipped')
                if args[1] != self.fld(E, st, ph[1], 'field_type'): return self.bad(E, st, 'io', 'an unknown field is skipped with another type than the one in its header')
                return go(st, ('fe', 0))
            return self.bad(E, st, 'io', '%s where a field value belongs' % m)
        if ph[0] == 'fe' and m == 'read_field_end': return go(st, ('in',))
        if ph[0] == 'fe' and ph[1] == 0 and m == 'read_field_begin':
            st.g['ph'] = ('in',); return self.step(E, st, tr, m, sty, args, rty)
        if ph[0] == 'stop' and m == 'read_field_end': return self.both(E, st, rty, m)
        if ph[0] == 'stop' and m == 'read_struct_end': return go(st, ('end',))
        return self.bad(E, st, 'io', '%s in phase %s' % (m, ph[0]))
def check_app_read(P, key):
    cl = AppRead(); E = Engine(P, cl, unroll=2); b = P.bodies[key]
    args = [E.mk(t, ('arg', i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]
    cl.region = args[0].r
    cl.kty = next(i for i, t in enumerate(E.T) if t['k'] == 'adt' and t['path'].endswith('::ApplicationErrorKind'))
    exits = E.run(key, args, {'ph': ('init',), 'fail': None, 's1': 'n', 's2': 'n', 'names': (NUMV,)})
    got = set()
    for ex in exits:
        r = ok_err(E, cl, ex, None)
        if r is None: continue
        n, p = r; st = ex.st
        if n == 'Err': cl.viol.append(('err-valid', 'rejects a valid application error with %s' % (error_cat(E, st, p),), ex.span)); continue
        if st.g['ph'][0] != 'end': cl.viol.append(('io', 'succeeds before the end of the structure', ex.span)); continue
        k = cl.fld(E, st, p, 'kind'); msg = cl.fld(E, st, p, 'message')
        got.add((st.g['s1'], st.g['s2']))
        if st.g['s1'] == 'y' and E.term(msg) != MSGV: cl.viol.append(('value', 'the message is %s instead of the one read' % tstr(E.term(msg))[:80], ex.span))
        if st.g['s2'] == 'y':
            if not (k.__class__ is Opq and k.t == KINDV or k.__class__ is Agg and cl.denotes(st, mksym(NUMV, 32, True), E.T[k.ty]['v'][k.v]['n'])):
                cl.viol.append(('value', 'the kind is %r instead of the one read' % (k,), ex.span))
        elif not (k.__class__ is Agg and E.T[k.ty]['v'][k.v]['n'] == 'Unknown'): cl.viol.append(('value', 'an absent kind is reported as %r' % (k,), ex.span))
    if ('y', 'y') not in got and not cl.viol: cl.viol.append(('err-valid', 'no path reads a message and a kind', b.get('span')))
    return cl.viol, {'exits': len(exits), 'steps': E.steps, 'events': cl.nev, 'analysed': sorted(E.analysed)}

FROM = ['alloc::string::String', '&str', 'TransportError', 'ProtocolError', 'ApplicationError', 'core::io::error::Error', 'alloc::string::FromUtf8Error', 'core::num::error::TryFromIntError', 'alloc::collections::TryReserveError']
def obs(P, feature):
    from obligations import Ob, missing
    out = []
    def add(fam, subject, fn, args): out.append(Ob(fam, subject, 'sync', fn, args, feature))
    def one(fam, subject, pred, fn, *args):
        ks = [r['key'] for r in P.roots if pred(r)]
        if len(ks) != 1: add(fam, subject, missing('%d instead of one function for %s' % (len(ks), subject)), ())
        else: add(fam, subject, fn, (ks[0],) + args)
    seen = set()
    for r in P.roots:
        if r['name'] == 'from' and r.get('impl_trait') == 'core::convert::From' and P.ts(r['impl_self']).endswith('errors::Error'):
            src = P.ts(r['impl_targs'][0]); s = short(src) if '::thrift::' in src else src
            seen.add(s)
            if s == '!': continue
            if s not in FROM: add('errors', 'From<%s>' % s, missing('a conversion the specification does not know'), ())
            else: add('errors', 'From<%s>' % s, check_from, (r['key'], src))
    for s in FROM:
        if s not in seen: add('errors', 'From<%s>' % s, missing('no conversion from %s' % s), ())
    for ty, names in NUM.items():
        tab = list(enumerate(names))
        one('errors', 'TryFrom<i32> for ' + ty, lambda r: r['name'] == 'try_from' and short(P.ts(r['impl_self'])) == ty if r.get('impl_self') is not None else False, check_tryfrom, ty, tab)
        add('errors', 'numbers of ' + ty, check_discr, (ty, tab))
        n = ty[:-4]
        one('errors', n + '::new', lambda r: r['path'].endswith('::%s::new' % n), check_ctor, n[:-5], False)
        one('errors', 'new_%s_error' % n[:-5].lower(), lambda r: r['path'].endswith('::new_%s_error' % n[:-5].lower()), check_ctor, n[:-5], True)
    mt = [(i, n) for n, i in MSGNUM.items()]
    one('msgtype', 'TryFrom<u8> for TMessageType', lambda r: r['name'] == 'try_from' and r.get('impl_self') is not None and short(P.ts(r['impl_self'])) == 'TMessageType', check_tryfrom, 'TMessageType', mt)
    one('msgtype', 'From<TMessageType> for u8', lambda r: r['name'] == 'from' and r.get('impl_self') is not None and P.ts(r['impl_self']) == 'u8' and short(P.ts(r['impl_targs'][0])) == 'TMessageType', check_into_u8)
    for w, n in (('seq', 'verify_expected_sequence_number'), ('call', 'verify_expected_service_call'), ('type', 'verify_expected_message_type'), ('required', 'verify_required_field_exists'), ('field_id', 'field_id')):
        one('verify', n, lambda r: r['name'] == n and r['path'].endswith('::protocol::' + n), check_verify, w)
    one('apperr', 'write_application_error_to_out_protocol', lambda r: r['name'] == 'write_application_error_to_out_protocol', check_app_write)
    one('apperr', 'read_application_error_from_in_protocol', lambda r: r['name'] == 'read_application_error_from_in_protocol', check_app_read)
    return out
