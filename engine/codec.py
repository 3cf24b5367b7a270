"""Codec rule: every path of every compact-protocol method, compared with the published compact protocol.

The client records, per abstract path, the transport operations performed (bytes with their symbolic
value, varints, bulk data, failures).  An oracle -- a statement of the Thrift compact protocol written
against the same abstract values -- is then replayed along each path: every branch the oracle needs is
decided by the facts the path established (or both cases are considered)."""
from domain import Int, Facts, C, B, TRUE, FALSE, mksym, cond, lin_add, lin_of, trange, BASE
from engine import Agg, Opq, Ref, Seq, Fut, FnV, Stuck, UNIT, Client, Engine, occ, LENMAX, tstr
import models

VARINT = {'read_varint': 'r', 'read_varint_async': 'r', 'write_varint': 'w', 'write_varint_async': 'w'}
ERRTY = '::thrift::errors::Error'

def short(p): return p.split('::')[-1].rstrip('>')

class Mismatch(Exception):
    def __init__(self, aspect, msg): self.aspect = aspect; self.msg = msg
class Infeasible(Exception): pass
class Fail(Exception):
    """the spec says: return this error."""
    def __init__(self, cat): self.cat = cat
class Misuse(Exception):
    """the caller broke the protocol's documented contract: a panic is acceptable here."""

def from_src(c):
    """source type of a conversion into the crate's error type, or None."""
    if c.get('trait') != 'core::convert::From' or c.get('m') != 'from': return None
    im = c.get('impl') or ''
    i = im.find('::thrift::errors::Error as core::convert::From<')
    if i < 0: return None
    return im[im.index('core::convert::From<', i) + len('core::convert::From<'):].rstrip('>').strip()

class CodecClient(Client):
    """path-sensitive: states are never merged unless identical."""
    max_states = 10000
    def __init__(self, budget_of=None):
        self.budget_of = budget_of; self.allocs = []
    def reset(self, E): self.allocs = []
    def partition(self, E, st):
        if st.g.get('part') is not None: return (st.g['tr'], 'part')
        return (st.g['tr'], st.f.key())
    def unrolled(self, E, st): return E.unroll if st.g.get('part') is None else 1
    def rec(self, st, *r):
        st.g['tr'] = trace(st.g) + (r,)
        if len(st.g['tr']) > 150: raise Stuck('no bound on the operations of one call')
        if st.g.get('part') is not None: st.g['part'] = None
    def some_written(self, E, st, s, k):
        """the transport took the first k bytes of the slice; consecutive pieces of one value are one record."""
        a, n = st.f.simp(s.m[0]), st.f.simp(s.m[1])
        if n.k == 'c':
            self.out(E, st, Ref(s.r, s.p, (s.m[0], k))); return
        t = E.term(models.rd(E, st, s))
        part = st.g.get('part')
        if part is not None and st.g['tr'][-1] == ('wpart', t) and st.f.truth(st.f.cmp('Eq', a, part)) is True:
            st.g['part'] = st.f.binop('Add', part, k); return
        if st.f.truth(st.f.cmp('Eq', a, C(0, 64, False))) is not True or part is not None and st.g['tr'][-1] == ('wpart', t): raise Stuck('a partial write is not continued where it ended')
        self.rec(st, 'wpart', t)
        st.g['part'] = k
    def fresh_(self, st): return len(st.g['tr'])
    def fail(self, E, st, rty, what):
        s = st.fork()
        i = self.fresh_(s)
        self.rec(s, 'fail', i, what)
        return (s, E.err(rty, Opq(E.payload_ty(rty, 'Err'), ('everr', i))))
    def alloc(self, E, st, what, n, fallible, ty):
        n = st.f.simp(n)
        if n.k == 'c' and n.x <= 16: return
        rem = self.budget_of(E, st) if self.budget_of else None
        ok = fallible
        why = 'infallible reservation' if not fallible else None
        if rem is not None:
            charged = lin_add(lin_of(rem[0]), lin_of(rem[1]), -1)
            d = lin_add(charged, st.f.as_lin(n), -1)
            lo, hi = st.f.lrange(d)
            if lo < 0: ok = False; why = 'reservation of %r units not covered by the %s already charged to the budget' % (n, 'amount')
        self.allocs.append((ok, what, repr(n), why, E.span))
        if not fallible and why != 'infallible reservation': self.allocs.append((False, what, repr(n), 'infallible reservation', E.span))
    def intercept(self, E, st, c, args, rty):
        m = c.get('m')
        if m in VARINT and 'varint' in (c.get('trait') or ''):
            vi = c['own'][0]
            if VARINT[m] == 'r': return self.call_or_fut(E, st, ('varint', m, vi), args, rty)
            return self.call_or_fut(E, st, ('varint', m, vi), args, rty)
        src = from_src(c)
        if src is not None: return Opq(rty, ('from', src, E.term(args[0])))
        return None
    def call_or_fut(self, E, st, name, args, rty):
        if name[1].endswith('_async'): return Fut(name, tuple(args), rty)
        return self.effect(E, st, name, args, rty)
    def buf(self, E, st, ref):
        s = models.slice_of(E, st, ref)
        return s, st.f.simp(s.m[0]), st.f.simp(s.m[1])
    def fill(self, E, st, s, a, k):
        """the first k bytes of the buffer become fresh input bytes."""
        for j in range(k):
            b = mksym(('ev', self.fresh_(st), 'b'), 8, False)
            self.rec(st, 'rb', b)
            E.write(st, (s.r, s.p + (C(a.x + j, 64, False),)), b)
    def effect(self, E, st, name, args, rty):
        m = name[1]
        if name[0] == 'varint':
            vi = name[2]; i = self.fresh_(st)
            if VARINT[m] == 'r':
                f = self.fail(E, st, rty, m)
                v = E.mk(vi, ('ev', i, 'v'))
                self.rec(st, 'rv', E.P.ts(vi), v)
                return [(st, E.ok(rty, v)), f]
            f = self.fail(E, st, rty, m)
            s = (('ev', i, 'n'), 64, False); BASE[s] = (1, 10)
            n = Int(64, False, 'l', (0, ((s, 1),)))
            self.rec(st, 'wv', E.P.ts(vi), args[1], n)
            return [(st, E.ok(rty, n)), f]
        if m == 'read_exact':
            s, a, n = self.buf(E, st, args[1])
            f = self.fail(E, st, rty, m)
            if n.k == 'c' and n.x <= 64:
                self.fill(E, st, s, a, n.x)
                return [(st, self.unit_or_len(E, rty)), f]
            i = self.fresh_(st)
            v = E.read(st, (s.r, s.p))
            full = st.f.simp(E.seq_len(v))
            if not (a.k == 'c' and a.x == 0 and full == n): raise Stuck('read_exact into a window')
            t = ('ev', i, 'd')
            if not st.f.assume(st.f.cmp('Eq', E.seq_len_t(t), n), True): return [f]
            self.rec(st, 'rn', n, t, n)
            E.write(st, (s.r, s.p), Opq(v.ty, t))
            return [(st, self.unit_or_len(E, rty)), f]
        if m == 'read':
            s, a, n = self.buf(E, st, args[1])
            if n.k != 'c' or n.x > 16: raise Stuck('read into a buffer of unknown size')
            out = [self.fail(E, st, rty, m)]
            for k in range(n.x + 1):
                s2 = st.fork()
                if k == 0: self.rec(s2, 'eof')
                else: self.fill(E, s2, s, a, k)
                out.append((s2, E.ok(rty, C(k, 64, False))))
            return out
        if m == 'read_to_end':
            src = args[0]
            lim = None
            v = src
            while v.__class__ is Ref: v = E.read(st, (v.r, v.p))
            if v.__class__ is Agg and E.path_of(v.ty) and short(E.path_of(v.ty)) == 'Take':
                lim = v.f[1]
            r = args[1]
            cur = models.seqval(E, st, models.rd(E, st, r))
            f = self.fail(E, st, rty, m)
            i = self.fresh_(st)
            t = ('ev', i, 'd')
            n = E.seq_len_t(t)
            if lim is not None and not st.f.assume(st.f.cmp('Le', n, lim), True): return [f]
            self.rec(st, 'rn', lim, t, n)
            E.write(st, (r.r, r.p), Opq(cur.ty, t) if not cur.s else Seq(cur.ty, cur.s + (('s', t, n),)))
            return [(st, E.ok(rty, n)), f]
        if m in ('write_all', 'write'):
            s, a, n = self.buf(E, st, args[1])
            if m == 'write_all':
                tr = st.g['tr']
                if tr and tr[-1] == ('wzero',):
                    # nothing was taken: all of it is offered again, and taken or refused as a whole
                    tr = tr[:-1]
                    if tr and tr[-1][0] == 'wpart': st.g['part'] = tr[-1][2]; tr = tr[:-1] + (tr[-1][:2],)
                    st.g['tr'] = tr
            f = self.fail(E, st, rty, m)
            if m == 'write':
                if st.g['tr'] and st.g['tr'][-1] == ('wzero',):
                    self.rec(st, 'wagain'); return [f]
                res = [f]
                z = st.fork()
                if z.f.assume(st.f.cmp('Eq', n, C(0, 64, False)), True): res.append((z, E.ok(rty, C(0, 64, False))))
                if not st.f.assume(st.f.cmp('Eq', n, C(0, 64, False)), False): return res
                z = st.fork(); self.rec(z, 'wzero'); res.append((z, E.ok(rty, C(0, 64, False))))
                n = st.f.simp(n)
                if n.k == 'c' and n.x <= 16: ks = [C(i, 64, False) for i in range(1, n.x + 1)]
                else:
                    k = E.mk(E.payload_ty(rty, 'Ok'), E.fresh(st, ('ev', self.fresh_(st), 'k')))
                    if not st.f.assume(st.f.cmp('Le', C(1, 64, False), k), True) or not st.f.assume(st.f.cmp('Le', k, n), True): return res
                    ks = [k]
                for k in ks:
                    s2 = st.fork(); self.some_written(E, s2, s, k); res.append((s2, E.ok(rty, k)))
                return res
            part = st.g.get('part')
            if part is not None and n.k != 'c' and st.g['tr'][-1] == ('wpart', E.term(models.rd(E, st, s))) and st.f.truth(st.f.cmp('Eq', st.f.simp(s.m[0]), part)) is True:
                st.g['part'] = st.f.binop('Add', part, n)
            else: self.out(E, st, s)
            return [(st, E.ok(rty, UNIT)), f]
        if m == 'flush':
            f = self.fail(E, st, rty, m)
            self.rec(st, 'flush')
            return [(st, E.ok(rty, UNIT)), f]
        if m in ('seek', 'stream_position', 'rewind'):
            f = self.fail(E, st, rty, m)
            self.rec(st, 'seek', E.term(args[1]) if len(args) > 1 else None)
            return [(st, E.ok(rty, E.mk(E.payload_ty(rty, 'Ok'), ('ev', self.fresh_(st) - 1, 'p')))), f]
        return self.other(E, st, name, args, rty)
    def other(self, E, st, name, args, rty): return None
    def unit_or_len(self, E, rty): return E.ok(rty, UNIT)
    def out(self, E, st, s):
        """bytes of a slice, appended to the output."""
        v = models.whole(E, st, s)
        n = st.f.simp(s.m[1])
        if v.__class__ in (Agg, Seq) and n.k == 'c':
            for j in range(n.x): self.rec(st, 'wb', E.elem(st, v, C(j, 64, False)))
            return
        if v.__class__ is Seq:
            for x in v.s:
                if x[0] == 'e': self.rec(st, 'wb', x[1])
                else: self.rec(st, 'wn', x[1], x[2])
            return
        if n.k == 'c' and n.x <= 64:
            for j in range(n.x): self.rec(st, 'wb', E.elem(st, v, C(j, 64, False)))
            return
        self.rec(st, 'wn', E.term(v), n)

def trace(g):
    """the operations so far, the last partial write with its length."""
    tr = g['tr']
    if g.get('part') is not None: tr = tr[:-1] + (tr[-1] + (g['part'],),)
    return tr

# ---------------------------------------------------------------------------------------------
CODES = {'Stop': 0, 'I08': 3, 'I16': 4, 'I32': 5, 'I64': 6, 'Double': 7, 'String': 8, 'List': 9, 'Set': 10, 'Map': 11, 'Struct': 12}
BYCODE = {v: k for k, v in CODES.items()}
MSG = {'Call': 1, 'Reply': 2, 'Exception': 3, 'OneWay': 4}

class Replay:
    """one replay of an oracle along one exit, under a list of decisions."""
    def __init__(self, E, ex, dec):
        self.E = E; self.ex = ex; self.f = ex.st.f.copy(); self.tr = trace(ex.st.g); self.i = 0
        self.dec = dec; self.used = 0; self.total = C(0, 64, False); self.done_fail = None
    def branch(self, q):
        t = self.f.truth(q)
        if t is not None: return t
        if self.used == len(self.dec): self.dec.append(True)
        t = self.dec[self.used]; self.used += 1
        if not self.f.assume(q, t) or not self.f.lin_consistent(): raise Infeasible()
        return t
    def choose(self, n):
        """oracle non-determinism: any of n behaviours is acceptable (handled by the caller)."""
        raise NotImplementedError
    def case(self, v, values):
        """which of the given constants does v equal? None when it is none of them."""
        for x in values:
            if self.branch(self.f.cmp('Eq', v, C(x, v.w, v.sg))): return x
        return None
    def variant(self, v):
        E = self.E
        k = E.known_variant(self.st(), v)
        vs = E.T[v.ty]['v']
        if k is None:
            d = E.discr(self.st(), v)
            for i, x in enumerate(vs):
                if self.branch(self.f.cmp('Eq', d, C(x['d'], 64, True))): k = i; break
            else: raise Infeasible()
        return vs[k]['n'], k
    class _S: pass
    def st(self):
        s = Replay._S(); s.f = self.f; s.mem = self.ex.st.mem; s.g = self.ex.st.g
        return s
    def fld(self, v, name, variant=0):
        """field of a struct value by its public name (or type position)."""
        fs = self.E.T[v.ty]['v'][variant]['f']
        for i, (n, t, *_) in enumerate(fs):
            if n == name: return self.E.proj(self.st(), v, (variant, i))
        raise Stuck('no field %s' % name)
    # -- transport
    def next(self):
        if self.i >= len(self.tr): return None
        return self.tr[self.i]
    def take(self, kind, what):
        r = self.next()
        if r is None:
            raise Mismatch('io', 'the method stops before %s' % what)
        if r[0] == 'fail':
            self.i += 1
            if self.i != len(self.tr): raise Mismatch('after-failure', 'transport used again after a failed %s' % r[2])
            raise Fail(('io', ('everr', r[1])))
        if r[0] == 'wpart' and kind == 'wn':
            whole = self.E.seq_len_t(r[1])
            if self.eq(r[2], whole):
                self.i += 1; return ('wn', r[1], whole)
            nx = self.tr[self.i + 1] if self.i + 1 < len(self.tr) else None
            if nx is not None and nx[0] in ('fail', 'wzero'):
                self.i += 1; return self.take(kind, what)
        if r[0] == 'wzero':
            self.i += 1
            if self.i != len(self.tr): raise Mismatch('io', 'goes on although the transport accepts nothing')
            raise Fail(('full',))
        if r[0] == 'eof':
            self.i += 1
            if self.i != len(self.tr): raise Mismatch('after-failure', 'transport used again after end of input')
            raise Fail(('eof',))
        if r[0] != kind:
            raise Mismatch('io', 'expected %s, found %s' % (what, self.show(r)))
        self.i += 1
        return r
    def show(self, r): return '%s%s' % (r[0], tuple(x for x in r[1:]))
    def rbyte(self): return self.take('rb', 'one byte read')[1]
    def rvarint(self, ty):
        r = self.next()
        if r is not None and r[0] in ('rb', 'eof') : return self.rleb(ty)
        r = self.take('rv', 'a %s varint read' % ty)
        if r[1] != ty: raise Mismatch('io', 'reads a %s varint where the format has a %s varint' % (r[1], ty))
        return r[2]
    def rleb(self, ty):
        """the varint read byte by byte."""
        import varint
        try: return varint.decode_spec(self, lambda i: self.rbyte(), *varint.WIDTH[ty])[0]
        except varint.TooLong:
            r = self.next()
            if r is not None and r[0] == 'rb': self.i += 1
            elif r is not None: self.rbyte()
            raise Fail(('transport', 'Unknown'))
    def rbulk(self, n):
        r = self.take('rn', 'a read of %r bytes' % (n,))
        if r[1] is None: raise Mismatch('io', 'unbounded read where %r bytes belong to the value' % (n,))
        if not self.eq(r[1], n): raise Mismatch('io', 'reads up to %r bytes where the value has %r' % (r[1], n))
        if self.branch(self.f.cmp('Eq', r[3], self.f.cast(n, 64, False))): return r[2]
        raise Fail(('eof',))
    def add(self, n): self.total = self.f.binop('Add', self.total, n)
    def wbyte(self, v, what=''):
        r = self.take('wb', 'byte %s %r written' % (what, v))
        if not self.eq(r[1], v): raise Mismatch('io', 'writes byte %r where the format has %r%s' % (self.f.simp(r[1]), v, ' (' + what + ')' if what else ''))
        self.add(C(1, 64, False))
    def wvarint(self, ty, v):
        r = self.next()
        if r is not None and r[0] == 'wb': return self.wleb(ty, v)
        r = self.take('wv', 'a %s varint write' % ty)
        if r[1] != ty or not self.eq(r[2], v): raise Mismatch('io', 'writes varint %r: %s where the format has %r: %s' % (r[2], r[1], v, ty))
        self.add(r[3])
    def wleb(self, ty, v):
        """the varint written byte by byte."""
        f = self.f
        x = f.cast(v, 64, ty[0] == 'i')
        if ty[0] == 'i':
            x = f.cast(f.binop('BitXor', f.binop('Shl', x, C(1, 64, True)), f.binop('Shr', x, C(63, 64, True))), 64, False)
        while True:
            big = f.cmp('Lt', C(127, 64, False), x)
            low = f.cast(f.binop('BitAnd', x, C(127, 64, False)), 8, False)
            if not self.branch(big):
                self.wbyte(low); return
            self.wbyte(f.binop('BitOr', low, C(128, 8, False)))
            x = f.binop('Shr', x, C(7, 64, False))
    def wbulk(self, t, n):
        E = self.E
        z = self.branch(self.f.cmp('Eq', n, C(0, 64, False)))
        if z and (self.next() is None or self.next()[0] not in ('wn', 'fail')): return
        r = self.take('wn', 'the %r bytes of the value written' % (n,))
        if r[1] != t or not self.eq(r[2], n): raise Mismatch('io', 'writes %s (%r bytes) where the value is %s (%r bytes)' % (tstr(r[1]), r[2], tstr(t), n))
        self.add(n)
    def eq(self, a, b):
        if a.__class__ is Int and b.__class__ is Int:
            a, b = self.f.simp(a), self.f.simp(b)
            if a == b: return True
            if a.w != b.w: return False
            if self.f.truth(self.f.cmp('Eq', a, b)) is True: return True
            return a.w > 1 and self.f.bits(a) == self.f.bits(b)
        return self.same(a, b)
    def same(self, a, b):
        """deep equality of abstract values under the facts."""
        E = self.E
        if a is b or a == b: return True
        if a is None or b is None: return False
        if a.__class__ is Int or b.__class__ is Int: return a.__class__ is b.__class__ and self.eq(a, b)
        if a.__class__ is Agg or b.__class__ is Agg:
            if a.__class__ not in (Agg, Opq) or b.__class__ not in (Agg, Opq):
                return False
            ty = a.ty if a.ty is not None else b.ty
            if ty is not None and E.T[ty]['k'] == 'adt' and E.is_enum(ty):
                ka, kb = E.known_variant(self.st(), a), E.known_variant(self.st(), b)
                if ka is None or kb is None:
                    ka = self.variant(a)[1]; kb = self.variant(b)[1]
                if ka != kb: return False
                if a.__class__ is Opq: a = E.expand(self.st(), a, ka)
                if b.__class__ is Opq: b = E.expand(self.st(), b, kb)
            else:
                if a.__class__ is Opq: a = E.expand(self.st(), a)
                if b.__class__ is Opq: b = E.expand(self.st(), b)
            return len(a.f) == len(b.f) and all(self.same(x, y) for x, y in zip(a.f, b.f))
        if a.__class__ in (Seq, Opq) and b.__class__ in (Seq, Opq):
            if E.term(a) == E.term(b): return True
            def segs(v):
                return v.s if v.__class__ is Seq else (('s', v.t, E.seq_len(v)),)
            try: sa, sb = segs(a), segs(b)
            except Stuck: return False
            sa = [x for x in sa if not (x[0] == 's' and self.f.simp(x[2]) == C(0, 64, False))]
            sb = [x for x in sb if not (x[0] == 's' and self.f.simp(x[2]) == C(0, 64, False))]
            return len(sa) == len(sb) and all(x[0] == y[0] and (self.same(x[1], y[1]) if x[0] == 'e' else x[1] == y[1]) for x, y in zip(sa, sb))
        return False

# ---- errors -----------------------------------------------------------------------------------
IOKIND = {'UnexpectedEof': 'EndOfFile', 'TimedOut': 'TimedOut', 'AlreadyExists': 'AlreadyOpen', 'ConnectionReset': 'NotOpen', 'ConnectionRefused': 'NotOpen', 'NotConnected': 'NotOpen'}
def error_cat(E, st, v):
    """classify a value of the crate's error type."""
    if v.__class__ is Opq:
        t = v.t
        if t and t[0] == 'from':
            src, x = t[1], t[2]
            if src.endswith('io::error::Error'):
                if x.__class__ is tuple and x and x[0] == 'everr': return ('io', x)
                if x.__class__ is tuple and x and x[0] == 'ioerr_new':
                    k = x[1]
                    n = E.T[k.ty]['v'][k.v]['n'] if k.__class__ is Agg else None
                    if n is None: return ('?', v)
                    return ('eof',) if n == 'UnexpectedEof' else ('transport', IOKIND.get(n, 'Unknown'))
                return ('?', v)
            if src.endswith('TryFromIntError') or src.endswith('FromUtf8Error'): return ('Protocol', 'InvalidData')
            if src.endswith('TryReserveError'): return ('Protocol', 'SizeLimit', 'alloc')
            if src == '!' or src.endswith('Infallible'): return ('Protocol', 'InvalidData')
            return ('?', v)
        if t and t[0] == 'everr': return ('ev', t)
        return ('?', v)
    if v.__class__ is Agg and v.ty is not None:
        n = E.T[v.ty]['v'][v.v]['n']
        if n in ('Protocol', 'Transport', 'Application') and v.f:
            p = v.f[0]
            if p.__class__ is Agg:
                for (fn, ft, *_), x in zip(E.T[p.ty]['v'][0]['f'], p.f):
                    if fn == 'kind':
                        if x.__class__ is Agg:
                            k = E.T[x.ty]['v'][x.v]['n']
                            if (n, k) == ('Transport', 'EndOfFile'): return ('eof',)
                            return (n, k)
                        return (n, x)
    return ('?', v)

# ---- protocol object state -----------------------------------------------------------------------
class Roles:
    """which part of the protocol struct plays which role, decided by type: a path of fields, through structs of the crate."""
    def __init__(self, E, ty, writer):
        T = E.T; self.ty = ty
        self.last = self.stack = self.pending = self.remaining = None; self.names = {}
        def walk(ty, at, name):
            for i, (n, ft, *_) in enumerate(T[ty]['v'][0]['f']):
                t = T[ft]; p = at + (i,); nm = name + n
                if t['k'] == 'int' and t['w'] == 16 and t['sg']: self.set('last', p, nm)
                elif t['k'] == 'int' and t['w'] == 64 and not t['sg']: self.set('remaining', p, nm)
                elif t['k'] == 'adt' and t['path'] == 'alloc::vec::Vec' and T[t['args'][0]]['k'] == 'int' and T[t['args'][0]]['w'] == 16: self.set('stack', p, nm)
                elif t['k'] == 'adt' and t['path'] == 'core::option::Option': self.set('pending', p, nm)
                elif t['k'] == 'adt' and t['path'].startswith('parquet_format_safe::') and len(t.get('v', ())) == 1 and len(p) < 3: walk(ft, p, nm + '.')
        walk(ty, (), '')
        for r in ('last', 'stack', 'pending') + (() if writer else ('remaining',)):
            if getattr(self, r) is None: raise Stuck('the protocol struct has no %s field' % r)
        # a writer may keep the whole identifier of a pending boolean field, or its id
        pt = T[T[self.type_of(E, 'pending')]['args'][0]]
        self.id_only = writer and pt['k'] == 'int' and pt['w'] == 16 and pt['sg']
    def set(self, r, i, name):
        if getattr(self, r) is not None: raise Stuck('two candidate fields for ' + r)
        setattr(self, r, i); self.names[r] = name
    def type_of(self, E, r):
        ty = self.ty
        for i in getattr(self, r): ty = E.field_ty(ty, 0, i)
        return ty
    def of(self, E, st, v, r):
        """the part of the struct v that plays role r"""
        for i in getattr(self, r): v = E.proj(st, v, (0, i))
        return v
    def initial(self, E, t, r):
        """the part's value in the unknown struct named t"""
        for i in getattr(self, r): t = ('fld', t, 0, i)
        return E.mk(self.type_of(E, r), t)

class PState:
    """abstract protocol state manipulated by the oracles."""
    def __init__(self, E, ty, writer, region):
        self.E = E; self.R = Roles(E, ty, writer); self.writer = writer
        self.region = region
        o = Opq(ty, region[1])
        g = lambda r: self.R.initial(E, o.t, r)
        self.last = g('last'); self.stack = models.seqval(E, None, g('stack')); self.pending = g('pending')
        self.remaining = g('remaining') if not writer else None
        self.stack_ty = self.R.type_of(E, 'stack')
        self.pending_ty = self.R.type_of(E, 'pending')
    def copy(self):
        p = PState.__new__(PState); p.__dict__.update(self.__dict__); return p
    def none(self): return self.E.enum(self.pending_ty, 'None')
    def some(self, v): return self.E.enum(self.pending_ty, 'Some', v)
    def compare(self, o):
        ex = o.ex; E = self.E
        v = E.region(ex.st, self.region)
        for r in ('last', 'stack', 'pending') + (() if self.writer else ('remaining',)):
            got = self.R.of(E, ex.st, v, r); want = getattr(self, r)
            if not o.same(got, want):
                raise Mismatch('budget' if r == 'remaining' else 'state', 'leaves %s = %r where the protocol state must be %r' % (self.R.names[r], got, want))

def no_pending(o, S):
    n, k = o.variant(S.pending)
    if n == 'Some': raise Misuse()

# ---- oracles: the compact protocol -------------------------------------------------------------
def charge(o, S, n):
    if o.branch(o.f.cmp('Lt', S.remaining, n)): raise Fail(('Protocol', 'SizeLimit'))
    S.remaining = o.f.binop('Sub', S.remaining, n)
def charge_elems(o, S, count, size):
    x = o.f.binop('Mul', o.f.cast(count, 64, False), C(size, 64, False))
    charge(o, S, x)
def u8(n): return C(n, 8, False)
def coll_type(o, nib):
    """collection element type code -> TType variant name"""
    x = o.case(nib, [1] + sorted(BYCODE))
    if x is None: raise Fail(('Protocol', 'InvalidData'))
    return 'Bool' if x == 1 else BYCODE[x]
def push(S, v): S.stack = Seq(S.stack_ty, S.stack.s + (('e', v),))
def pop(o, S):
    E = S.E; s = S.stack.s
    if s and s[-1][0] == 'e':
        S.stack = Seq(S.stack_ty, s[:-1]); return s[-1][1]
    if not s: raise Misuse()
    _, t, n = s[-1]
    if o.branch(o.f.cmp('Eq', n, C(0, 64, False))): raise Misuse()
    n2 = E.seq_len_t(('pre', t))
    last = E.elem(o.st(), Opq(S.stack_ty, t), o.f.binop('Sub', n, C(1, 64, False)))
    o.f.assume(o.f.cmp('Eq', n2, o.f.binop('Sub', n, C(1, 64, False))), True)
    S.stack = Seq(S.stack_ty, s[:-1] + (('s', ('pre', t), n2),))
    return last
def bit(o, v, lo, n):
    """bits lo..lo+n of a byte, as a byte."""
    b = o.f.bits(v)[lo:lo + n]
    return o.f.from_bits(b + [0] * (8 - n), 8, False)

class Spec:
    """expected value builders, resolved against the types of the actual return value."""
    def __init__(self, o): self.o = o
def vmatch(o, v, pat):
    """does abstract value v match the pattern?"""
    E = o.E
    k = pat[0]
    if k == 'v': return o.same(v, pat[1])
    if k == 'unit': return v.__class__ is Agg and not v.f
    if k == 'any': return True
    if k == 'var':
        n, i = o.variant(v)
        if n != pat[1]: return False
        if len(pat) == 2: return True
        return vmatch(o, E.proj(o.st(), v, (i, 0)), pat[2])
    if k == 'struct': return all(vmatch(o, o.fld(v, n), p) for n, p in pat[1].items())
    if k == 'term': return v.__class__ in (Opq, Seq) and E.term(v) == pat[1]
    if k == 'empty':
        if v.__class__ not in (Opq, Seq): return False
        return E.term(v) == pat[1] or o.eq(E.seq_len(v), C(0, 64, False))
    raise AssertionError(pat)
V = lambda x: ('v', x)
var = lambda n, *p: ('var', n) + p
OKU = ('unit',)

def R_message_begin(o, S, a):
    b = o.rbyte()
    if not o.branch(o.f.cmp('Eq', b, u8(0x82))): raise Fail(('Protocol', 'BadVersion'))
    tb = o.rbyte()
    if not o.branch(o.f.cmp('Eq', bit(o, tb, 0, 5), u8(1))): raise Fail(('Protocol', 'BadVersion'))
    x = o.case(bit(o, tb, 5, 3), [1, 2, 3, 4])
    if x is None: raise Fail(('Protocol', 'InvalidData'))
    mt = [k for k, v in MSG.items() if v == x][0]
    seq = o.rvarint('u32')
    name = string_(o, S)
    S.last = C(0, 16, True)
    return ('struct', {'name': name, 'message_type': var(mt), 'sequence_number': V(seq)})
def bytes_(o, S):
    n = o.rvarint('u32')
    charge_elems(o, S, n, 1)
    if o.branch(o.f.cmp('Eq', n, C(0, 32, False))):
        # a read of nothing may be left out
        r = o.next()
        return (o.rbulk(C(0, 64, False)) if r is not None and r[0] in ('rn', 'eof', 'fail') else None), n, True
    return o.rbulk(o.f.cast(n, 64, False)), n, False
def string_(o, S):
    t, n, empty = bytes_(o, S)
    if empty:
        # no bytes at all are valid UTF-8
        if t is not None and o.f.truth(mksym(('utf8?', t), 1, False)) is False: raise Infeasible()
        return ('empty', ('utf8', t))
    if not o.branch(mksym(('utf8?', t), 1, False)): raise Fail(('Protocol', 'InvalidData'))
    return ('term', ('utf8', t))
def R_bytes(o, S, a):
    t, n, empty = bytes_(o, S)
    return ('empty' if empty else 'term', t)
def R_string(o, S, a): return string_(o, S)
def R_struct_begin(o, S, a):
    charge(o, S, C(2, 64, False))
    push(S, S.last); S.last = C(0, 16, True)
    return var('None')
def R_struct_end(o, S, a):
    S.last = pop(o, S); return OKU
def R_noop(o, S, a): return OKU
def R_field_begin(o, S, a):
    b = o.rbyte()
    nib = bit(o, b, 0, 4); delta = bit(o, b, 4, 4)
    x = o.case(nib, [0, 1, 2] + sorted(BYCODE)[1:])
    if x is None: raise Fail(('Protocol', 'InvalidData'))
    if x == 0: return ('struct', {'field_type': var('Stop'), 'id': var('None'), 'name': var('None')})
    if x in (1, 2):
        S.pending = S.some(B(x == 1)); ty = 'Bool'
    else: ty = BYCODE[x]
    if o.branch(o.f.cmp('Eq', delta, u8(0))): S.last = o.rvarint('i16')
    else:
        s = lin_add(o.f.as_lin(S.last), o.f.as_lin(o.f.cast(delta, 16, True)))
        if o.branch(cond('ovf', s, 16, True)): raise Fail(('Protocol', ('DepthLimit', 'InvalidData', 'SizeLimit', 'Unknown', 'NegativeSize')))
        S.last = o.f.simp(Int(16, True, 'l', s)) if s[1] else C(s[0], 16, True)
    return ('struct', {'field_type': var(ty), 'id': var('Some', V(S.last)), 'name': var('None')})
def R_bool(o, S, a):
    n, k = o.variant(S.pending)
    if n == 'Some':
        v = o.E.proj(o.st(), S.pending, (k, 0))
        S.pending = S.none()
        return V(v)
    S.pending = S.none()
    b = o.rbyte()
    x = o.case(b, [1, 2])
    if x is None: raise Fail(('Protocol', 'InvalidData'))
    return V(B(x == 1))
def R_byte(o, S, a): return V(o.rbyte())
def R_i8(o, S, a): return V(o.f.cast(o.rbyte(), 8, True))
def R_var(ty):
    def f(o, S, a): return V(o.rvarint(ty))
    return f
def R_double(o, S, a):
    bits = []
    for i in range(8): bits += o.f.bits(o.rbyte())
    return V(Opq(None, ('f64of', o.f.from_bits(bits, 64, False))))
def list_begin(o, S, order=0):
    """order: where the element type is checked (the outcomes differ only in which of two errors is reported)"""
    b = o.rbyte()
    if order == 0: ety = coll_type(o, bit(o, b, 0, 4))
    hi = bit(o, b, 4, 4)
    if o.branch(o.f.cmp('Eq', hi, u8(15))): n = o.rvarint('u32')
    else: n = o.f.cast(hi, 32, False)
    if order == 1: ety = coll_type(o, bit(o, b, 0, 4))
    charge_elems(o, S, n, 8)
    if order == 2: ety = coll_type(o, bit(o, b, 0, 4))
    return ('struct', {'element_type': var(ety), 'size': V(n)})
def R_list_begin(o, S, a): return list_begin(o, S)
R_list_begin.alts = [lambda o, S, a: list_begin(o, S, 1), lambda o, S, a: list_begin(o, S, 2)]
def R_map_begin(o, S, a, order=0):
    n = o.rvarint('u32')
    if o.branch(o.f.cmp('Eq', n, C(0, 32, False))):
        return ('struct', {'key_type': var('None'), 'value_type': var('None'), 'size': V(C(0, 32, False))})
    if order == 1: charge_elems(o, S, n, 8)
    b = o.rbyte()
    if order == 2: charge_elems(o, S, n, 8)
    k = coll_type(o, bit(o, b, 4, 4)); v = coll_type(o, bit(o, b, 0, 4))
    if not order: charge_elems(o, S, n, 8)
    return ('struct', {'key_type': var('Some', var(k)), 'value_type': var('Some', var(v)), 'size': V(n)})
R_map_begin.alts = [lambda o, S, a: R_map_begin(o, S, a, 1), lambda o, S, a: R_map_begin(o, S, a, 2)]
READ = {
    'read_message_begin': R_message_begin, 'read_message_end': R_noop, 'read_struct_begin': R_struct_begin, 'read_struct_end': R_struct_end,
    'read_field_begin': R_field_begin, 'read_field_end': R_noop, 'read_bool': R_bool, 'read_bytes': R_bytes, 'read_i8': R_i8,
    'read_i16': R_var('i16'), 'read_i32': R_var('i32'), 'read_i64': R_var('i64'), 'read_double': R_double, 'read_string': R_string,
    'read_list_begin': R_list_begin, 'read_list_end': R_noop, 'read_set_begin': R_list_begin, 'read_set_end': R_noop,
    'read_map_begin': R_map_begin, 'read_map_end': R_noop, 'read_byte': R_byte,
}

# writers -----------------------------------------------------------------------------------------
def tcode(o, v, coll=False):
    n, k = o.variant(v)
    if coll and n == 'Bool': return 1
    if n not in CODES: raise Misuse()
    return CODES[n]
def header(o, S, code, fid):
    d = lin_add(o.f.as_lin(fid), o.f.as_lin(S.last), -1)
    D = o.f.simp(Int(32, True, 'l', d)) if d[1] else C(d[0], 32, True)
    if o.branch(o.f.cmp('Lt', C(0, 32, True), D)) and o.branch(o.f.cmp('Lt', D, C(15, 32, True))):
        # the delta is a small constant on a path that establishes it, or a symbolic nibble
        nb = o.f.bits(o.f.cast(D, 8, False))
        cb = [(code >> i) & 1 for i in range(4)]
        o.wbyte(o.f.from_bits(cb + nb[:4], 8, False), 'short field header')
    else:
        o.wbyte(u8(code), 'field type')
        o.wvarint('i16', fid)
    S.last = fid
def fid_of(o, ident):
    i = o.fld(ident, 'id')
    n, k = o.variant(i)
    if n != 'Some': raise Misuse()
    return o.E.proj(o.st(), i, (k, 0))
def W_message_begin(o, S, a):
    m = a[0]
    o.wbyte(u8(0x82), 'protocol id')
    n, k = o.variant(o.fld(m, 'message_type'))
    o.wbyte(u8((MSG[n] << 5) | 1), 'type and version')
    o.wvarint('u32', o.fld(m, 'sequence_number'))
    wstr(o, o.fld(m, 'name'))
    return 'count'
def wstr(o, v):
    n = o.E.seq_len(v)
    if o.branch(o.f.cmp('Lt', C((1 << 32) - 1, 64, False), n)): raise Fail(('Protocol', 'InvalidData'))
    o.wvarint('u32', o.f.cast(n, 32, False))
    o.wbulk(o.E.term(v), n)
def W_bytes(o, S, a): wstr(o, a[0]); return 'count'
def W_end(o, S, a): no_pending(o, S); return 'count'
def W_zero(o, S, a): return 'count'
def W_struct_begin(o, S, a): push(S, S.last); S.last = C(0, 16, True); return 'count'
def W_struct_end(o, S, a): no_pending(o, S); S.last = pop(o, S); return 'count'
def W_field_begin(o, S, a):
    n, k = o.variant(o.fld(a[0], 'field_type'))
    if n == 'Bool':
        no_pending(o, S)
        S.pending = S.some(fid_of(o, a[0]) if S.R.id_only else a[0]); return 'count'
    code = tcode(o, o.fld(a[0], 'field_type'))
    header(o, S, code, fid_of(o, a[0]))
    return 'count'
def W_field_stop(o, S, a): no_pending(o, S); o.wbyte(u8(0), 'stop'); return 'count'
def W_bool(o, S, a):
    n, k = o.variant(S.pending)
    p = S.pending
    S.pending = S.none()
    t = o.branch(a[0])
    if n == 'Some':
        ident = o.E.proj(o.st(), p, (k, 0))
        header(o, S, 1 if t else 2, ident if S.R.id_only else fid_of(o, ident))
    else: o.wbyte(u8(1 if t else 2), 'bool element')
    return 'count'
def W_i8(o, S, a): o.wbyte(o.f.cast(a[0], 8, False)); return 'count'
def W_byte(o, S, a): o.wbyte(a[0]); return 'count'
def W_var(ty):
    def f(o, S, a): o.wvarint(ty, a[0]); return 'count'
    return f
def W_double(o, S, a):
    b = o.f.bits(mksym(('f64bits', a[0].t), 64, False))
    for i in range(8): o.wbyte(o.f.from_bits(b[8 * i:8 * i + 8], 8, False), 'double byte %d' % i)
    return 'count'
def W_list_begin(o, S, a):
    c = tcode(o, o.fld(a[0], 'element_type'), True)
    n = o.fld(a[0], 'size')
    if o.branch(o.f.cmp('Lt', n, C(15, 32, False))):
        nb = o.f.bits(o.f.cast(n, 8, False))
        o.wbyte(o.f.from_bits([(c >> i) & 1 for i in range(4)] + nb[:4], 8, False), 'collection header')
    else:
        o.wbyte(u8(0xF0 | c), 'long collection header')
        o.wvarint('u32', n)
    return 'count'
def W_map_begin(o, S, a):
    n = o.fld(a[0], 'size')
    if o.branch(o.f.cmp('Eq', n, C(0, 32, False))):
        o.wbyte(u8(0), 'empty map'); return 'count'
    cs = []
    for x in ('key_type', 'value_type'):
        t = o.fld(a[0], x)
        vn, k = o.variant(t)
        if vn != 'Some': raise Misuse()
        cs.append(tcode(o, o.E.proj(o.st(), t, (k, 0)), True))
    o.wvarint('u32', n)
    o.wbyte(u8(cs[0] << 4 | cs[1]), 'map types')
    return 'count'
def W_flush(o, S, a):
    o.take('flush', 'a flush of the transport')
    return OKU
WRITE = {
    'write_message_begin': W_message_begin, 'write_message_end': W_end, 'write_struct_begin': W_struct_begin, 'write_struct_end': W_struct_end,
    'write_field_begin': W_field_begin, 'write_field_end': W_end, 'write_field_stop': W_field_stop, 'write_bool': W_bool, 'write_bytes': W_bytes,
    'write_i8': W_i8, 'write_i16': W_var('i16'), 'write_i32': W_var('i32'), 'write_i64': W_var('i64'), 'write_double': W_double,
    'write_string': W_bytes, 'write_list_begin': W_list_begin, 'write_list_end': W_zero, 'write_set_begin': W_list_begin, 'write_set_end': W_zero,
    'write_map_begin': W_map_begin, 'write_map_end': W_zero, 'flush': W_flush, 'write_byte': W_byte,
}

# ---- comparing exits with an oracle -----------------------------------------------------------------
def next_dec(d):
    d = list(d)
    while d and d[-1] is False: d.pop()
    if not d: return None
    d[-1] = False
    return d

def outcome(oracle, o, S, args):
    try: return ('ok', oracle(o, S, args))
    except Fail as e: return ('err', e.cat)
    except Misuse: return ('misuse',)

def check_exit(E, ex, oracle, mkS, args, stats):
    """[(aspect, message)] for one exit."""
    if ex.kind == 'stuck': return [('stuck', str(ex.val))]
    out = []
    dec = []
    while dec is not None:
        o = Replay(E, ex, dec)
        try:
            try: one_case(E, ex, oracle, o, mkS(), args)
            except Stuck as e: raise Mismatch('stuck', str(e))
            stats['cases'] = stats.get('cases', 0) + 1
        except Infeasible: pass
        except Mismatch as m:
            if (m.aspect, m.msg) not in out: out.append((m.aspect, m.msg))
        dec = next_dec(o.dec)
    return out

def one_case(E, ex, oracle, o, S, args):
    if ex.kind == 'panic':
        try: r = outcome(oracle, o, S, args)
        except Mismatch as m: r = ('mismatch', m)
        if r[0] == 'misuse': return
        raise Mismatch('panic', 'can panic (%s)' % (ex.val[1],))
    v = ex.val
    if v.__class__ is not Agg: raise Stuck('result %r' % (v,))
    name = E.T[v.ty]['v'][v.v]['n']
    if name == 'Err':
        cat = error_cat(E, ex.st, v.f[0])
        if ex.st.g.get('oom'):
            if cat[:2] != ('Protocol', 'SizeLimit'): raise Mismatch('err', 'reports a refused allocation as %s' % cat_str(cat))
            return
    r = outcome(oracle, o, S, args)
    if r[0] == 'misuse': return
    if r[0] == 'err':
        want = r[1]
        if name == 'Ok':
            raise Mismatch('swallow' if want[0] in ('io', 'eof', 'full') else 'budget' if want[-1] == 'SizeLimit' else 'accept', 'returns Ok where the result must be the error %s' % (cat_str(want),))
        if o.i != len(o.tr): raise Mismatch('after-failure', 'goes on using the transport (%s) after the failure' % o.show(o.tr[o.i]))
        if not cat_ok(cat, want): raise Mismatch('err-io' if want[0] in ('io', 'eof') else 'budget' if want[-1] == 'SizeLimit' else 'err', 'returns error %s where it must be %s' % (cat_str(cat), cat_str(want)))
        return
    if name == 'Err': raise Mismatch('err-valid', 'returns the error %s for an input that is valid' % (cat_str(cat),))
    if o.i != len(o.tr): raise Mismatch('io', 'uses the transport beyond the value: %s' % o.show(o.tr[o.i]))
    got = v.f[0]
    if r[1] == 'count':
        if not o.eq(got, o.total): raise Mismatch('count', 'returns %r for %r bytes written' % (got, o.total))
    elif not vmatch(o, got, r[1]): raise Mismatch('value', 'returns %r where the encoded value is %s' % (got, pat_str(r[1])))
    S.compare(o)
def cat_ok(cat, want):
    if cat == want or want == ('full',): return True
    if len(cat) == 2 and len(want) == 2 and cat[0] == want[0] and isinstance(want[1], tuple) and cat[1] in want[1]: return True
    return False
def cat_str(c): return ' '.join(str(x) for x in c)
def pat_str(p):
    if p[0] == 'struct': return '{%s}' % ', '.join('%s: %s' % (k, pat_str(v)) for k, v in p[1].items())
    if p[0] == 'var': return p[1] + ('(%s)' % pat_str(p[2]) if len(p) > 2 else '')
    return str(p[1]) if len(p) > 1 else '()'

def self_region(E, b):
    """region and type of *self for a method body."""
    t = E.T[b['locals'][1]]
    return ('X', ('*', ('arg', 0)), t['e']), t['e']

def returns_future(P, key):
    t = P.T[P.bodies[key]['locals'][0]]
    return t['k'] in ('coroutine', 'alias') or t.get('path') == 'core::pin::Pin'

def run_method(P, key, writer, oracle):
    b = P.bodies[key]
    asyn = returns_future(P, key)
    cell = {}
    def budget_of(E, st):
        if writer: return None
        reg, ty = cell['r']; R = Roles(E, ty, writer)
        v = E.region(st, reg)
        cur = R.of(E, st, v, 'remaining')
        init = R.initial(E, reg[1], 'remaining')
        if lin_of(cur) is None: return None
        return init, cur
    cl = CodecClient(budget_of); E = Engine(P, cl, unroll=64)
    reg, ty = self_region(E, b)
    cell['r'] = (reg, ty)
    args = [E.mk(t, ('arg', i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]
    exits = E.run(key, args, {'tr': ()}, asyn=asyn)
    # arguments as the oracle sees them: references resolved to the values they denote
    vals = []
    for i, t in enumerate(b['locals'][2:1 + b['argc']]):
        v = args[i + 1]
        if v.__class__ is Ref: v = E.mk(v.r[2], v.r[1]) if v.m is None else Opq(v.r[2], v.r[1])
        vals.append(v)
    stats = {'exits': len(exits), 'steps': E.steps, 'analysed': sorted(E.analysed)}
    # the specification leaves the order of some independent checks open: one order must explain all paths
    viol = None; fit = []
    for k, orc in enumerate([oracle] + getattr(oracle, 'alts', [])):
        bad = []
        for ex in exits:
            for asp, msg in check_exit(E, ex, orc, lambda: PState(E, ty, writer, reg), vals, stats): bad.append((asp, msg, ex.span))
        if not bad: fit.append(k)
        if viol is None or len(bad) < len(viol): viol = bad
    stats['orders'] = tuple(fit)
    for ok, what, n, why, span in cl.allocs:
        stats['allocs'] = stats.get('allocs', 0) + 1
        if not ok and not writer: viol.append(('alloc' if why == 'infallible reservation' else 'budget', '%s(%s): %s' % (what, n, why), span))
    return viol, stats
