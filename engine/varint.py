"""Rule for variable-length integers: every path of the integer readers and writers, and of the slice
coders behind them, is compared bit by bit with the published base-128 / zigzag coding.

Bytes and integers are vectors of GF(2)-affine bits over the input bits, so a path's result is the
spec's result exactly when the two vectors are equal under the facts of the path; nothing is enumerated."""
from codec import *
from codec import CodecClient, Replay

WIDTH = {'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'u64': (64, False), 'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True)}
class VClient(CodecClient):
    def intercept(self, E, st, c, args, rty): return None

def io_cat(E, st, v):
    if v.__class__ is Opq and v.t:
        if v.t[0] == 'everr': return ('io', v.t)
        if v.t[0] == 'ioerr_new':
            k = v.t[1]
            n = E.T[k.ty]['v'][k.v]['n'] if k.__class__ is Agg else '?'
            return ('eof',) if n == 'UnexpectedEof' else ('kind', n)
    return ('?', v)

class TooLong(Exception): pass
def decode_spec(o, nextbyte, w, sg):
    """-> (value, number of bytes); the groups come from nextbyte(i)."""
    acc = []
    for i in range((w + 6) // 7):
        b = o.f.bits(nextbyte(i))
        acc += b[:7]
        if not o.branch(cond('bit', b[7])) : break
    else: raise TooLong()
    n = len(acc) // 7
    acc = (acc + [0] * 64)[:64]
    if sg: acc = [bx(acc[i + 1], acc[0]) for i in range(63)] + [acc[0]]
    return o.f.from_bits(acc[:w], w, sg), n
def bx(a, b):
    from domain import bxor
    return bxor(a, b)
def cases(E, ex, fn, stats):
    """replay fn(o) under every combination of the decisions it needs."""
    dec = []; out = []
    while dec is not None:
        o = Replay(E, ex, dec)
        try:
            stats['cases'] = stats.get('cases', 0) + 1
            fn(o)
        except Infeasible: pass
        except Mismatch as m:
            if (m.aspect, m.msg) not in out: out.append((m.aspect, m.msg))
        except Stuck as e: out.append(('stuck', str(e)))
        dec = next_dec(o.dec)
    return out
def run_all(P, key, args, fn, asyn=False, mem=None, name=None):
    cl = VClient(); E = Engine(P, cl, unroll=64)
    b = P.bodies[key]
    if args is None: args = [E.mk(t, ('arg', i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]
    elif callable(args): args, mem = args(E, b)
    exits = E.run(key, args, {'tr': ()}, asyn=asyn, mem=mem)
    stats = {'exits': len(exits), 'steps': E.steps, 'analysed': sorted(E.analysed)}
    viol = []
    for ex in exits:
        if ex.kind != 'ret': viol.append(('stuck' if ex.kind == 'stuck' else 'panic', '%s' % (ex.val[1] if ex.val.__class__ is tuple else ex.val,), ex.span)); continue
        for a, m in cases(E, ex, lambda o: fn(E, ex, o, args), stats): viol.append((a, m, ex.span))
    if not exits: viol.append(('err-valid', 'never returns', b.get('span')))
    return viol, stats

def result_of(E, ex):
    v = ex.val
    if v.__class__ is not Agg or v.ty is None: raise Stuck('result %r' % (v,))
    return E.T[v.ty]['v'][v.v]['n'], (v.f[0] if v.f else UNIT)

def check_reader(P, key, ty):
    w, sg = WIDTH[ty]; hit = set()
    def fn(E, ex, o, args):
        n, p = result_of(E, ex)
        try: v, k = decode_spec(o, lambda i: o.rbyte(), w, sg)
        except Fail as f:
            if n == 'Ok': raise Mismatch('swallow', 'returns Ok although the %s' % ('input ends inside the varint' if f.cat == ('eof',) else 'transport fails'))
            c = io_cat(E, ex.st, p)
            if c != f.cat: raise Mismatch('err-io', 'returns the error %s where it must be %s' % (cat_str(c), cat_str(f.cat)))
            return
        except TooLong:
            if n == 'Ok': raise Mismatch('value', 'accepts a varint of %s that is longer than %d bytes' % (ty, (w + 6) // 7))
            rest = o.tr[o.i:]
            if len(rest) > 1: raise Mismatch('io', 'goes on reading after an overlong varint')
            c = io_cat(E, ex.st, p)
            if not rest or rest[0][0] == 'rb':
                if c != ('kind', 'InvalidData'): raise Mismatch('err', 'reports an overlong varint as %s' % cat_str(c))
            elif rest[0][0] == 'fail':
                if c != ('io', ('everr', rest[0][1])): raise Mismatch('err', 'reports a transport failure as %s' % cat_str(c))
            elif c not in (('eof',), ('kind', 'InvalidData')): raise Mismatch('err', 'reports an overlong varint as %s' % cat_str(c))
            return
        if n == 'Err': raise Mismatch('err-valid', 'returns the error %s for a valid varint of %d bytes' % (cat_str(io_cat(E, ex.st, p)), k))
        if o.i != len(o.tr): raise Mismatch('io', 'uses the transport beyond the varint: %s' % o.show(o.tr[o.i]))
        if not o.eq(p, v): raise Mismatch('value', 'a varint of %d bytes is decoded to %r instead of %r' % (k, o.f.simp(p), v))
        hit.add(k)
    viol, stats = run_all(P, key, None, fn, returns_future(P, key))
    for k in range(1, (w + 6) // 7 + 1):
        if k not in hit and not viol: viol.append(('err-valid', 'no path reads a varint of %d bytes' % k, None))
    return viol, stats

def check_writer(P, key, ty):
    def fn(E, ex, o, args):
        n, p = result_of(E, ex)
        try: o.wleb(ty, args[1])
        except Fail as f:
            if n == 'Ok': raise Mismatch('swallow', 'returns Ok although the transport fails')
            c = io_cat(E, ex.st, p)
            if c != f.cat and f.cat != ('full',): raise Mismatch('err-io', 'returns the error %s where it must be %s' % (cat_str(c), cat_str(f.cat)))
            return
        if n == 'Err': raise Mismatch('err-valid', 'returns the error %s for a valid number' % (cat_str(io_cat(E, ex.st, p)),))
        if o.i != len(o.tr): raise Mismatch('io', 'writes beyond the varint: %s' % o.show(o.tr[o.i]))
        if not o.eq(p, o.total): raise Mismatch('count', 'returns %r for %r bytes written' % (p, o.total))
    return run_all(P, key, None, fn, returns_future(P, key))

def encode_spec(o, ty, x):
    """the bytes of the shortest encoding."""
    f = o.f
    x = f.cast(x, 64, ty[0] == 'i')
    if ty[0] == 'i': x = f.cast(f.binop('BitXor', f.binop('Shl', x, C(1, 64, True)), f.binop('Shr', x, C(63, 64, True))), 64, False)
    out = []
    while True:
        low = f.cast(f.binop('BitAnd', x, C(127, 64, False)), 8, False)
        if not o.branch(f.cmp('Lt', C(127, 64, False), x)): return out + [low]
        out.append(f.binop('BitOr', low, C(128, 8, False)))
        x = f.binop('Shr', x, C(7, 64, False))
def check_space(P, key, ty):
    def fn(E, ex, o, args):
        n = len(encode_spec(o, ty, args[0]))
        if not o.eq(ex.val, C(n, 64, False)): raise Mismatch('count', 'requires %r bytes for a number of %d' % (ex.val, n))
    return run_all(P, key, None, fn)
BUF = ('X', ('*', ('arg', 1)), None)
def check_encode(P, key, ty):
    def mk(E, b):
        t = b['locals'][1:3]
        r = ('X', ('*', ('arg', 1)), E.T[t[1]]['e'])
        u8 = E.T[E.T[t[1]]['e']]['e']
        a = Agg(None, 0, tuple(E.mk(u8, ('init', i)) for i in range(10)))
        return [E.mk(t[0], ('arg', 0)), Ref(r, (), (C(0, 64, False), C(10, 64, False)))], {r: a}
    def fn(E, ex, o, args):
        bs = encode_spec(o, ty, args[0])
        v = E.region(ex.st, args[1].r)
        for i, x in enumerate(bs):
            g = E.elem(ex.st, v, C(i, 64, False))
            if not o.eq(g, x): raise Mismatch('value', 'byte %d of %d is %r instead of %r' % (i, len(bs), o.f.simp(g), x))
        if not o.eq(ex.val, C(len(bs), 64, False)): raise Mismatch('count', 'returns %r for an encoding of %d bytes' % (ex.val, len(bs)))
    return run_all(P, key, mk, fn)
def check_decode(P, key, ty):
    w, sg = WIDTH[ty]
    def fn(E, ex, o, args):
        n, p = result_of(E, ex)
        s = args[0]; src = E.region(ex.st, s.r)
        class End(Exception): pass
        def byte(i):
            if not o.branch(o.f.cmp('Lt', C(i, 64, False), s.m[1])): raise End()
            return E.elem(ex.st, src, C(i, 64, False))
        # the slice coder reads a 64-bit varint and truncates
        try: v, k = decode_spec(o, byte, 64, sg)
        except (End, TooLong):
            if n != 'None': raise Mismatch('value', 'decodes a slice that does not hold a complete varint')
            return
        if n != 'Some': raise Mismatch('err-valid', 'does not decode a varint of %d bytes' % k)
        if not o.eq(E.proj(ex.st, p, (0, 0)), o.f.cast(v, w, sg)): raise Mismatch('value', 'a varint of %d bytes is decoded to %r' % (k, E.proj(ex.st, p, (0, 0))))
        if not o.eq(E.proj(ex.st, p, (0, 1)), C(k, 64, False)): raise Mismatch('count', 'reports %r bytes for a varint of %d' % (E.proj(ex.st, p, (0, 1)), k))
    return run_all(P, key, None, fn)

def obs(P, feature):
    from obligations import Ob, missing
    out = []; seen = {}
    for k, b in P.bodies.items():
        for _, t, *_r in filter(None, b['blocks']):
            c = t[1] if t and t[0] == 'call' else None
            if c.__class__ is not dict or c.get('m') not in VARINT or 'varint' not in (c.get('trait') or ''): continue
            ty = P.ts(c['own'][0])
            if ty in WIDTH and c.get('key') in P.bodies: seen.setdefault((c['m'], ty), set()).add(c['key'])
    for (m, ty), ks in sorted(seen.items()):
        for i, k in enumerate(sorted(ks)):
            rd = VARINT[m] == 'r'
            out.append(Ob('varint-read' if rd else 'varint-write', '%s<%s>%s' % (m, ty, '@%d' % i if i else ''), 'async' if m.endswith('_async') else 'sync', check_reader if rd else check_writer, (k, ty), feature))
    for m, fn in (('required_space', check_space), ('encode_var', check_encode), ('decode_var', check_decode)):
        for ty in WIDTH:
            ks = [r['key'] for r in P.roots if r['name'] == m and (r.get('impl_trait') or '').endswith('::VarInt') and P.ts(r['impl_self']) == ty]
            if len(ks) != 1: out.append(Ob('varint', '%s<%s>' % (m, ty), 'sync', missing('no %s for %s' % (m, ty)), (), feature))
            else: out.append(Ob('varint', '%s<%s>' % (m, ty), 'sync', fn, (ks[0], ty), feature))
    return out
