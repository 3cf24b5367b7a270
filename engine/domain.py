"""Abstract integer domain: affine forms over symbols, per-bit provenance (GF(2) affine), intervals.

Everything here is a value in an abstract domain with an exact transfer function or a sound
over-approximation (a fresh derived symbol); no search and no solver."""

class Int:
    __slots__ = ('w', 'sg', 'k', 'x', '_h')
    def __init__(self, w, sg, k, x):
        self.w = w; self.sg = sg; self.k = k; self.x = x; self._h = None
    def __eq__(self, o):
        return o is self or (o.__class__ is Int and self.k == o.k and self.w == o.w and self.sg == o.sg and self.x == o.x)
    def __ne__(self, o): return not self == o
    def __hash__(self):
        if self._h is None: self._h = hash((self.w, self.sg, self.k, self.x))
        return self._h
    def __repr__(self):
        if self.k == 'c': return str(self.x)
        if self.k == 'l': return lin_str(self.x)
        if self.k == 'b': return 'bits[' + ' '.join(bit_str(b) for b in reversed(self.x)) + ']'
        return 'q' + str(self.x)

def sym_str(s):
    return name_str(s[0])
def name_str(n):
    if isinstance(n, tuple): return '.'.join(name_str(x) for x in n)
    return str(n)
def lin_str(x):
    c, t = x
    p = []
    for s, k in t: p.append(('' if k == 1 else '-' if k == -1 else str(k) + '*') + sym_str(s))
    if c or not p: p.append(str(c))
    return '+'.join(p)
def bit_str(b):
    if b in (0, 1): return str(b)
    return '^'.join(sorted(sym_str(s) + ':' + str(i) for s, i in b[0])) + ('^1' if b[1] else '')

BASE = {}   # symbol -> interval that always holds
DERIVED = {'bits', 'and', 'or', 'lin', 'q', 'Div', 'Rem', 'Shl', 'Shr', 'wrap', 'neg'}
def C(v, w, sg): return Int(w, sg, 'c', v)
def trange(w, sg): return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
def wrap(v, w, sg):
    v &= (1 << w) - 1
    if sg and v >> (w - 1): v -= 1 << w
    return v
TRUE = Int(1, False, 'c', 1)
FALSE = Int(1, False, 'c', 0)
def B(b): return TRUE if b else FALSE
def mksym(name, w, sg): return Int(w, sg, 'l', (0, (((name, w, sg), 1),)))
def cond(*q): return Int(1, False, 'q', q)

def lin_add(a, b, kb=1):
    c = a[0] + kb * b[0]
    d = dict(a[1])
    for s, k in b[1]:
        n = d.get(s, 0) + kb * k
        if n: d[s] = n
        else: d.pop(s, None)
    return (c, tuple(sorted(d.items(), key=skey)))
_sk = {}
def skey(it):
    s = it[0]
    r = _sk.get(s)
    if r is None: r = _sk[s] = repr(s)
    return r
def lin_scale(a, k):
    if k == 0: return (0, ())
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))
def lin_of(v):
    if v.k == 'c': return (v.x, ())
    if v.k == 'l': return v.x
    return None

def bxor(a, b):
    if a in (0, 1) and b in (0, 1): return a ^ b
    sa = (frozenset(), a) if a in (0, 1) else a
    sb = (frozenset(), b) if b in (0, 1) else b
    s = sa[0] ^ sb[0]; c = sa[1] ^ sb[1]
    return c if not s else (s, c)
def atom(s, i): return (frozenset(((s, i),)), 0)
def satom(s, i):
    n = s[0]
    if n.__class__ is tuple and n and n[0] == 'bits': return n[1][i]
    return atom(s, i)

class Facts:
    """Branch facts: intervals of affine forms, GF(2) affine equalities, excluded constants,
    chosen variants of opaque enums, truth of opaque conditions."""
    __slots__ = ('rng', 'sub', 'ne', 'q')
    def __init__(self):
        self.rng = {}; self.sub = {}; self.ne = {}; self.q = {}
    def copy(self):
        f = Facts.__new__(Facts)
        f.rng = dict(self.rng); f.sub = dict(self.sub); f.ne = dict(self.ne)
        f.q = dict(self.q)
        return f
    def key(self):
        return (frozenset(self.rng.items()), frozenset(self.sub.items()), frozenset(self.ne.items()), frozenset(self.q.items()))
    def __eq__(self, o): return self.rng == o.rng and self.sub == o.sub and self.ne == o.ne and self.q == o.q
    def join(self, o):
        f = Facts()
        for k in set(self.rng) | set(o.rng):
            a, b = self.lrange((0, k)); c, d = o.lrange((0, k))
            lo, hi = min(a, c), max(b, d)
            if Facts().lrange((0, k)) != (lo, hi): f.rng[k] = (lo, hi)
        for k, v in self.sub.items():
            if o.sub.get(k) == v: f.sub[k] = v
        for k in set(self.ne) | set(o.ne):
            s = frozenset(e for e in self.ne.get(k, frozenset()) | o.ne.get(k, frozenset()) if self.excl(k, e) and o.excl(k, e))
            if s: f.ne[k] = s
        for k, v in self.q.items():
            if o.q.get(k) == v: f.q[k] = v
        return f
    def excl(self, k, e):
        if e in self.ne.get(k, ()): return True
        if k and k[0] == 'b': return False
        lo, hi = self.lrange((0, k))
        return e < lo or e > hi
    def keep(self, pred):
        """forget facts whose key (or value) is rejected by pred."""
        for d in (self.rng, self.ne, self.q):
            for k in [k for k in d if not pred(k)]: del d[k]
        for k in [k for k, v in self.sub.items() if not pred(k) or not pred(v)]: del self.sub[k]

    # --- bits
    def sbit(self, b):
        if b in (0, 1): return b
        s, c = b
        hit = False
        sub = self.sub
        for a in s:
            if a in sub or (a[0][0].__class__ is tuple and a[0][0] and a[0][0][0] in DERIVED): hit = True; break
        if not hit: return b
        r = c
        for a in s:
            if a in sub: r = bxor(r, sub[a]); continue
            n = a[0][0]
            if n.__class__ is tuple and n and n[0] in DERIVED:
                v = self.resolve(a[0])
                if v is not None: r = bxor(r, (v >> a[1]) & 1); continue
            r = bxor(r, (frozenset((a,)), 0))
        return r
    def resolve(self, s):
        """value of a derived symbol whose operands have become constant."""
        n, w, sg = s
        tag = n[0]
        if tag == 'bits':
            v = 0
            for i, b in enumerate(n[1]):
                b = self.sbit(b)
                if b == 1: v |= 1 << i
                elif b != 0: return None
            return wrap(v, w, sg)
        if tag in ('and', 'or'):
            p, r = self.sbit(n[1]), self.sbit(n[2])
            if tag == 'and':
                if p == 0 or r == 0: return 0
                if p == 1 and r == 1: return 1
            else:
                if p == 1 or r == 1: return 1
                if p == 0 and r == 0: return 0
            return None
        if tag == 'lin':
            lo, hi = self.lrange(n[1])
            return lo if lo == hi else None
        if tag == 'q':
            t = self.truth(Int(1, False, 'q', n[1]))
            return None if t is None else int(t)
        if tag in ('Div', 'Rem', 'Shl', 'Shr'):
            a = self.simp(Int(n[1][2], n[1][3], n[1][0], n[1][1])); b = self.simp(Int(n[2][2], n[2][3], n[2][0], n[2][1]))
            if a.k == 'c' and b.k == 'c' and (b.x or tag in ('Shl', 'Shr')): return self.binop(tag, a, b).x
            return None
        if tag == 'wrap':
            a = self.simp(Int(n[2][2], n[2][3], n[2][0], n[2][1])); b = self.simp(Int(n[3][2], n[3][3], n[3][0], n[3][1]))
            if a.k == 'c' and b.k == 'c': return self.binop(n[1], a, b).x
            return None
        if tag == 'neg':
            a = self.simp(Int(n[1][2], n[1][3], n[1][0], n[1][1]))
            return wrap(-a.x, w, sg) if a.k == 'c' else None
        return None
    def symbits(self, s, n):
        """bits of a symbol, extended or truncated to n."""
        name, w, sg = s
        out = [self.sbit(satom(s, i)) for i in range(min(w, n))]
        if n > w:
            top = self.sbit(satom(s, w - 1)) if sg else 0
            out += [top] * (n - w)
        # known high zeros by interval
        lo, hi = self.srange(s)
        if lo >= 0:
            m = hi.bit_length()
            for i in range(m, n): out[i] = 0
        return out
    def bits(self, v):
        if v.k == 'c': return [(v.x >> i) & 1 for i in range(v.w)]
        if v.k == 'b': return [self.sbit(b) for b in v.x]
        if v.k == 'l':
            c, t = v.x
            if c == 0 and len(t) == 1 and t[0][1] == 1: return self.symbits(t[0][0], v.w)
            if len(t) == 1 and self.srange(t[0][0]) == (0, 1):
                # one of two numbers, by a bit
                b = self.symbits(t[0][0], 1)[0]; d = c + t[0][1]
                return [(c >> i) & 1 if not ((c ^ d) >> i) & 1 else bxor(b, (c >> i) & 1) for i in range(v.w)]
            r = self.disjoint(c, t, v.w)
            if r is not None: return r
            D = (('lin', v.x), v.w, v.sg)
            lo, hi = self.lrange(v.x)
            out = [self.sbit(atom(D, i)) for i in range(v.w)]
            if lo >= 0:
                for i in range(hi.bit_length(), v.w): out[i] = 0
            return out
        if v.k == 'q':
            t = self.truth(v)
            if t is not None: return [int(t)]
            if v.x[0] == 'bit': return [self.sbit(v.x[1])]
            return [atom((('q', v.x), 1, False), 0)]
        raise AssertionError(v)
    def disjoint(self, c, t, w):
        """the bits of a sum whose terms occupy different places."""
        if not 0 <= c < 1 << w or len(t) > 8: return None
        out = [(c >> i) & 1 for i in range(w)]
        used = c
        top = max(k for s, k in t)
        for s, k in t:
            if k <= 0 or k & (k - 1): return None
            lo, hi = self.srange(s)
            j = k.bit_length() - 1; n = hi.bit_length()
            if j >= w: return None
            if lo < 0 or j + n > w:
                # the topmost term may carry a sign, or be cut off
                if k != top: return None
                n = w - j
            m = ((1 << n) - 1) << j
            if used & m: return None
            used |= m
            out[j:j + n] = self.symbits(s, n)
        return out
    def from_bits(self, bits, w, sg):
        bits = [self.sbit(b) for b in bits]
        if all(b in (0, 1) for b in bits):
            v = sum(b << i for i, b in enumerate(bits))
            return C(wrap(v, w, sg), w, sg)
        if w == 1:
            return Int(1, False, 'q', ('bit', bits[0]))
        b0 = bits[0]
        if b0 not in (0, 1) and b0[1] == 0 and len(b0[0]) == 1:
            (S, i0), = b0[0]
            if i0 == 0:
                exp = self.symbits(S, w)
                if bits == exp:
                    lo, hi = self.srange(S); a, b = trange(w, sg)
                    if a <= lo and hi <= b and (S[1] <= w or (lo >= 0 and hi < (1 << w)) ):
                        return self.lin(S, w, sg)
                    if S[1] > w and lo >= a and hi <= b: return self.lin(S, w, sg)
        return Int(w, sg, 'b', tuple(bits))
    def lin(self, S, w, sg):
        if isinstance(S[0], tuple) and S[0] and S[0][0] == 'lin': x = S[0][1]
        else: x = (0, ((S, 1),))
        return self.simp(Int(w, sg, 'l', x))
    # --- ranges
    def srange(self, s):
        lo, hi = trange(s[1], s[2])
        n = s[0]
        b = BASE.get(s)
        if b: lo = max(lo, b[0]); hi = min(hi, b[1])
        if isinstance(n, tuple) and n and n[0] == 'lin':
            a, b = self.lrange(n[1]); lo = max(lo, a); hi = min(hi, b)
        r = self.rng.get(((s, 1),))
        if r: lo = max(lo, r[0]); hi = min(hi, r[1])
        if isinstance(n, tuple) and n and n[0] == 'bits':
            a, b = self.range(Int(s[1], s[2], 'b', n[1])); lo = max(lo, a); hi = min(hi, b)
        elif self.sub and not s[2]:
            # upper bits known zero
            m = s[1]
            while m > 0 and self.sub.get((s, m - 1)) == 0: m -= 1
            if m < s[1]: hi = min(hi, (1 << m) - 1)
        return lo, hi
    def lkey(self, t):
        if t and t[0][1] < 0: return tuple((s, -k) for s, k in t), -1
        return t, 1
    def lrange(self, x):
        c, t = x
        if not t: return (c, c)
        lo = hi = c
        for s, k in t:
            a, b = self.srange(s)
            if k < 0: a, b = b, a
            lo += k * a; hi += k * b
        if len(t) > 1 or t[0][1] not in (1,):
            key, sign = self.lkey(t)
            r = self.rng.get(key)
            if r:
                a, b = r if sign == 1 else (-r[1], -r[0])
                lo = max(lo, a + c); hi = min(hi, b + c)
        if len(t) <= 3:
            # one relational fact eliminated
            for key, r in self.rng.items():
                if len(key) < 2: continue
                m = dict(t)
                for s, kk in key:
                    if s in m and m[s] % kk == 0:
                        q = m[s] // kk
                        rest = dict(m)
                        for s2, k2 in key:
                            z = rest.get(s2, 0) - q * k2
                            if z: rest[s2] = z
                            else: rest.pop(s2, None)
                        if len(rest) > 24: continue
                        l2 = c + (q * r[0] if q > 0 else q * r[1]); h2 = c + (q * r[1] if q > 0 else q * r[0])
                        for s2, k2 in rest.items():
                            a, b = self.srange(s2)
                            if k2 < 0: a, b = b, a
                            l2 += k2 * a; h2 += k2 * b
                        lo = max(lo, l2); hi = min(hi, h2)
                        break
        return lo, hi
    def range(self, v):
        if v.k == 'c': return (v.x, v.x)
        if v.k == 'l':
            lo, hi = self.lrange(v.x); a, b = trange(v.w, v.sg)
            return max(lo, a), min(hi, b)
        if v.k == 'b':
            bs = self.bits(v)
            lo = sum((1 << i) for i, b in enumerate(bs) if b == 1)
            hi = sum((1 << i) for i, b in enumerate(bs) if b != 0)
            if v.sg:
                top = bs[-1]
                if top == 0: return lo, hi
                if top == 1: return lo - (1 << v.w), hi - (1 << v.w)
                half = 1 << (v.w - 1)
                return lo - half, hi - half if False else hi & (half - 1)
            return lo, hi
        t = self.truth(v)
        return (0, 1) if t is None else (int(t), int(t))
    def set_range(self, x, lo, hi):
        """constrain const+terms to [lo,hi]; returns False if empty."""
        c, t = x
        if not t: return lo <= c <= hi
        a, b = self.lrange(x)
        lo = max(lo, a); hi = min(hi, b)
        if lo > hi: return False
        if len(t) == 1 and abs(t[0][1]) == 1:
            s, k = t[0]
            if k == 1: r = (lo - c, hi - c)
            else: r = (c - hi, c - lo)
            n = s[0]
            if isinstance(n, tuple) and n and n[0] == 'lin':
                return self.set_range(n[1], r[0], r[1])
            if isinstance(n, tuple) and n and n[0] == 'bits' and not s[2] and r[0] == r[1]:
                if not 0 <= r[0] < 1 << s[1]: return False
                return all(self.add_bit(bt, (r[0] >> i) & 1) for i, bt in enumerate(n[1])) and self.consistent()
            ne = self.ne.get(((s, 1),), ())
            l2, h2 = r
            while l2 in ne: l2 += 1
            while h2 in ne: h2 -= 1
            if l2 > h2: return False
            r = (l2, h2)
            if r != trange(s[1], s[2]): self.rng[((s, 1),)] = r
            if r[0] == r[1] :
                bits = self.symbits0(s)
                for i, bt in enumerate(bits):
                    if not self.add_bit(bt, (r[0] >> i) & 1): return False
            elif s[1] <= 8 and (r[0] < 0) == (r[1] < 0):
                # bytes: the leading bits all values of the range share
                bits = self.symbits0(s)
                for i in reversed(range(s[1])):
                    if (r[0] >> i) != (r[1] >> i): break
                    if not self.add_bit(bits[i], (r[0] >> i) & 1): return False
            elif s[2] and (r[0] < 0) == (r[1] < 0):
                if not self.add_bit(self.sbit(satom(s, s[1] - 1)), int(r[0] < 0)): return False
            return True
        key, sign = self.lkey(t)
        r = (lo - c, hi - c) if sign == 1 else (c - hi, c - lo)
        old = self.rng.get(key)
        if old: r = (max(old[0], r[0]), min(old[1], r[1]))
        if r[0] > r[1]: return False
        self.rng[key] = r
        return True
    def symbits0(self, s): return [self.sbit(satom(s, i)) for i in range(s[1])]
    def add_bit(self, b, v):
        """assert GF(2) term b == v."""
        b = self.sbit(b)
        if b in (0, 1): return b == v
        s, c = b
        piv = max(s, key=lambda a: (repr(a[0]), a[1]))
        rest = s - {piv}
        val = v ^ c
        e = val if not rest else (rest, val)
        # substitute pivot in existing rows
        for k, r in list(self.sub.items()):
            if r not in (0, 1) and piv in r[0]:
                n = bxor((r[0] - {piv}, r[1]) if r[0] - {piv} else r[1], e)
                self.sub[k] = n
        self.sub[piv] = e
        return True
    def simp(self, v):
        if v.k == 'l':
            c, t = v.x
            if len(t) == 1:
                lo, hi = self.lrange(v.x)
                if lo == hi: return C(lo, v.w, v.sg)
                n = t[0][0][0]
                if n.__class__ is tuple and n and n[0] in DERIVED:
                    r = self.resolve(t[0][0])
                    if r is not None: return C(c + t[0][1] * r, v.w, v.sg)
                if self.sub:
                    s, k = t[0]
                    bs = self.symbits0(s)
                    if all(b in (0, 1) for b in bs):
                        n = wrap(sum(b << i for i, b in enumerate(bs)), s[1], s[2])
                        return C(c + k * n, v.w, v.sg)
            elif t:
                lo, hi = self.lrange(v.x)
                if lo == hi: return C(lo, v.w, v.sg)
                fixed = []
                for s, k in t:
                    r = self.srange(s)
                    if r[0] != r[1] and s[0].__class__ is tuple and s[0] and s[0][0] in DERIVED:
                        x = self.resolve(s)
                        if x is not None: r = (x, x)
                    fixed.append((s, k, r))
                if any(r[0] == r[1] for _, _, r in fixed):
                    c2 = c; t2 = []
                    for s, k, r in fixed:
                        if r[0] == r[1]: c2 += k * r[0]
                        else: t2.append((s, k))
                    return self.simp(Int(v.w, v.sg, 'l', (c2, tuple(t2)))) if t2 else C(c2, v.w, v.sg)
            return v
        if v.k == 'b':
            return self.from_bits(v.x, v.w, v.sg)
        if v.k == 'q':
            t = self.truth(v)
            if t is not None: return B(t)
        return v
    # --- conditions
    def truth(self, v):
        if v.k == 'c': return bool(v.x)
        if v.k == 'l':
            lo, hi = self.range(v)
            return bool(lo) if lo == hi else None
        q = v.x
        op = q[0]
        if op == 'bit':
            b = self.sbit(q[1]); return bool(b) if b in (0, 1) else None
        if op == 'not':
            t = self.truth(q[1]); return None if t is None else not t
        if op == 'eq':
            a, b = q[1], q[2]
            if a == b: return True
            lo, hi = self.range(a); c, d = self.range(b)
            if lo == hi == c == d: return True
            if hi < c or d < lo: return False
            if b.k == 'c':
                if a.k == 'l':
                    key, sign = self.lkey(a.x[1])
                    if (b.x - a.x[0]) * sign in self.ne.get(key, ()): return False
                    if a.x[1] and len(a.x[1]) == 1:
                        s = a.x[1][0][0]
                        if abs(a.x[1][0][1]) == 1 and self.sub:
                            tv = (b.x - a.x[0]) * a.x[1][0][1]
                            for i, bt in enumerate(self.symbits0(s)):
                                if bt in (0, 1) and bt != (tv >> i) & 1: return False
                    g = self.lin_gcd_excl(a.x, b.x)
                    if g: return False
                elif a.k == 'b':
                    bs = self.bits(a)
                    for i, bt in enumerate(bs):
                        if bt in (0, 1) and bt != (b.x >> i) & 1: return False
                    if b.x in self.ne.get(('b', tuple(bs)), ()): return False
                    if self.some_set(frozenset(x for x in (bxor(bt, (b.x >> i) & 1) for i, bt in enumerate(bs)) if x != 0)): return False
            elif a.k in 'lc' and b.k in 'lc':
                d = lin_add(lin_of(a), lin_of(b), -1)
                l2, h2 = self.lrange(d)
                if l2 == h2 == 0: return True
                if l2 > 0 or h2 < 0: return False
            else:
                if a.k in 'lb' and b.k in 'lb':
                    x = [lin_of(y) or self.bits_lin(y) for y in (a, b)]
                    if None not in x:
                        d = self.lrange(lin_add(x[0], x[1], -1))
                        if d == (0, 0): return True
                        if d[0] > 0 or d[1] < 0: return False
                x, y = self.bits(a), self.bits(b)
                if x == y: return True
                for p, r in zip(x, y):
                    z = bxor(p, r)
                    if z == 1: return False
            return self.q.get(q)
        if op == 'lt':
            a, b = q[1], q[2]
            la, lb = lin_of(a), lin_of(b)
            if la is not None and lb is not None:
                lo, hi = self.lrange(lin_add(la, lb, -1))
                if hi < 0: return True
                if lo >= 0: return False
                # excluded endpoint
            lo, hi = self.range(a); c, d = self.range(b)
            if hi < c: return True
            if lo >= d: return False
            h = self.high(a, b)
            if h is not None and self.some_set(h[0]): return not h[1]
            h = self.threshold(a, b)
            if h is not None:
                bs = self.bits(h[0])
                for lt in (True, False):
                    T = self.conj(bs, h[1], lt)
                    if T is None: continue
                    if all(x == 0 for x in T): return lt == h[2]
                    if self.some_set(frozenset(x for x in T if x != 0)): return lt != h[2]
            return self.q.get(q)
        if op == 'ovf':
            lo, hi = self.lrange(q[1]); a, b = trange(q[2], q[3])
            if a <= lo and hi <= b: return False
            if hi < a or lo > b: return True
            return None
        return self.q.get(q)
    def threshold(self, a, b):
        """a < b with one side constant and the other known by its bits, as (value, c, is value < c)."""
        if b.k == 'c' and a.k == 'b' and not a.sg: return a, b.x, True
        if a.k == 'c' and b.k == 'b' and not b.sg: return b, a.x + 1, False
        return None
    def conj(self, bits, c, lt):
        """terms that are all zero exactly when the unsigned number is < c (lt) or >= c; None if no such set."""
        T = []
        if lt: c -= 1
        if c < 0: return [1]
        if c >> len(bits): return [] if lt else [1]
        for i in reversed(range(len(bits))):
            k, b = (c >> i) & 1, bits[i]
            low = c & ((1 << i) - 1)
            if lt:
                if k == 0: T.append(b)
                elif b == 0 or (b != 1 and low == (1 << i) - 1): return T
                elif b != 1: return None
            else:
                if k == 1: T.append(bxor(b, 1))
                elif b == 1 or (b != 0 and low == 0): return T
                elif b != 0: return None
        return T
    def high(self, a, b):
        """a < b as 'these bits are all zero' (True) or 'not all zero' (False), when b (or a+1) is a power of two."""
        if b.k == 'c' and a.k != 'c' and not a.sg and b.x > 0 and b.x & (b.x - 1) == 0:
            return frozenset(x for x in self.bits(a)[b.x.bit_length() - 1:] if x != 0), True
        if a.k == 'c' and b.k != 'c' and not b.sg and a.x >= 0 and a.x & (a.x + 1) == 0:
            return frozenset(x for x in self.bits(b)[a.x.bit_length():] if x != 0), False
        return None
    def some_set(self, bits):
        """is at least one of these bits known to be one?"""
        if 1 in bits: return True
        for k in self.ne:
            if k[0] == 'b' and k[1] == 'nz' and self.nzset(k) <= bits: return True
        for s in {a[0] for x in bits if x not in (0, 1) for a in x[0]}:
            if s[2]: continue
            lo = self.srange(s)[0]
            if lo > 0 and frozenset(b for b in self.symbits(s, s[1])[lo.bit_length() - 1:] if b != 0) <= bits: return True
        return False
    def nzset(self, k): return frozenset(y for y in (self.sbit(x) for x in k[2]) if y != 0)
    def set_some(self, bits):
        """assert that at least one of these bits is one."""
        if 1 in bits: return True
        if not bits: return False
        if len(bits) == 1: return self.add_bit(next(iter(bits)), 1) and self.consistent()
        self.ne[('b', 'nz', tuple(sorted(bits, key=repr)))] = frozenset((0,))
        return True
    def consistent(self):
        for k in list(self.ne):
            if k[0] != 'b' or k[1] != 'nz': continue
            b = self.nzset(k)
            if 1 in b: continue
            if not b: return False
            if len(b) == 1 and not self.add_bit(next(iter(b)), 1): return False
        for s in {a[0] for a in self.sub}:
            lo, hi = self.srange(s)
            if lo > hi: return False
        return True
    def lin_consistent(self):
        """no relation between several symbols is contradicted by what is known about each."""
        for key, ex in self.ne.items():
            if len(key) > 1 and key[0] != 'b':
                lo, hi = self.lrange((0, key))
                if lo > hi or lo == hi and lo in ex: return False
        for key in self.rng:
            if len(key) > 1:
                lo, hi = self.lrange((0, key))
                if lo > hi: return False
        for q, t in self.q.items():
            if not t and q[0] == 'eq' and q[1].__class__ is Int and q[2].__class__ is Int:
                a, b = lin_of(q[1]), lin_of(q[2])
                if a is not None and b is not None and self.lrange(lin_add(a, b, -1)) == (0, 0): return False
            elif q[0] == 'lt' and q[1].__class__ is Int and q[2].__class__ is Int and 'b' in (q[1].k, q[2].k):
                a, b = self.simp(q[1]), self.simp(q[2])
                if (a, b) != (q[1], q[2]) and self.truth(cond('lt', a, b)) == (not t): return False
        return True
    def lin_gcd_excl(self, x, v): return False
    def assume(self, v, t):
        """refine with v == t; returns False when infeasible."""
        cur = self.truth(v)
        if cur is not None: return cur == t
        if v.k == 'l':
            return self.set_range(v.x, int(t), int(t))
        q = v.x; op = q[0]
        if op == 'not': return self.assume(q[1], not t)
        if op == 'bit': return self.add_bit(q[1], int(t))
        if op == 'eq':
            a, b = q[1], q[2]
            if a.k == 'c' and b.k != 'c': a, b = b, a
            if t:
                if b.k == 'c':
                    if a.k == 'l': return self.set_range(a.x, b.x, b.x)
                    for i, bt in enumerate(self.bits(a)):
                        if not self.add_bit(bt, (b.x >> i) & 1): return False
                    return True
                la, lb = lin_of(a), lin_of(b)
                if la is not None and lb is not None:
                    self.q[q] = True
                    return self.set_range(lin_add(la, lb, -1), 0, 0)
                for x, y in zip(self.bits(a), self.bits(b)):
                    if not self.add_bit(bxor(x, y), 0): return False
                return True
            if b.k == 'c':
                if a.k == 'l':
                    key, sign = self.lkey(a.x[1])
                    e = (b.x - a.x[0]) * sign
                    if len(key) == 1 and key[0][1] == 1 and isinstance(key[0][0][0], tuple) and key[0][0][0][0] == 'lin':
                        return self.assume(cond('eq', Int(a.w, a.sg, 'l', key[0][0][0][1]), C(e, a.w, a.sg)), False)
                    self.ne[key] = self.ne.get(key, frozenset()) | {e}
                    lo, hi = self.lrange(a.x)
                    l2, h2 = lo, hi
                    ex = {(n * sign) + a.x[0] for n in self.ne[key]}
                    while l2 in ex: l2 += 1
                    while h2 in ex: h2 -= 1
                    if l2 > h2: return False
                    if (l2, h2) != (lo, hi): return self.set_range(a.x, l2, h2)
                    return True
                bs = tuple(self.bits(a))
                unk = [i for i, x in enumerate(bs) if x not in (0, 1)]
                if len(unk) == 1:
                    return self.add_bit(bs[unk[0]], 1 - ((b.x >> unk[0]) & 1))
                if not self.set_some(frozenset(x for x in (bxor(bt, (b.x >> i) & 1) for i, bt in enumerate(bs)) if x != 0)): return False
                if b.x == 0: return True
                key = ('b', bs)
                self.ne[key] = self.ne.get(key, frozenset()) | {b.x}
                return True
            self.q[q] = False
            la, lb = lin_of(a), lin_of(b)
            if la is not None and lb is not None:
                # different, and known not to be on one side: on the other
                d = lin_add(la, lb, -1); lo, hi = self.lrange(d)
                if lo == 0: return self.set_range(d, 1, hi)
                if hi == 0: return self.set_range(d, lo, -1)
            return True
        if op == 'lt':
            a, b = q[1], q[2]
            la, lb = lin_of(a), lin_of(b)
            if la is not None and lb is not None:
                d = lin_add(la, lb, -1)
                lo, hi = self.lrange(d)
                return self.set_range(d, lo, -1) if t else self.set_range(d, 0, hi)
            h = self.high(a, b)
            if h is not None:
                if t == h[1]:
                    for x in sorted(h[0], key=repr):
                        if not self.add_bit(x, 0): return False
                    return self.consistent()
                return self.set_some(h[0])
            h = self.threshold(a, b)
            if h is not None:
                bs = self.bits(h[0]); lt = t == h[2]
                T = self.conj(bs, h[1], lt)
                if T is not None:
                    for x in T:
                        if not self.add_bit(x, 0): return False
                    return self.consistent()
                T = self.conj(bs, h[1], not lt)
                if T is not None: return self.set_some(frozenset(x for x in T if x != 0))
            if b.k == 'c' and a.k == 'b' and not a.sg:
                # the leading bits shared by every value of the range
                bs = self.bits(a)
                lo, hi = self.range(a)
                lo, hi = (lo, min(hi, b.x - 1)) if t else (max(lo, b.x), hi)
                if lo > hi: return False
                for i in reversed(range(a.w)):
                    if lo >> i != hi >> i: break
                    if not self.add_bit(bs[i], (lo >> i) & 1): return False
                if not self.consistent(): return False
                self.q[q] = t
                return True
            if a.k == 'c' and b.k == 'b' and not b.sg:
                # c < b  <=>  not (b < c+1)
                return self.assume(cond('lt', b, C(a.x + 1, b.w, b.sg)), not t)
            self.q[q] = t
            return True
        if op == 'ovf':
            if not t:
                a, b = trange(q[2], q[3])
                return self.set_range(q[1], a, b)
            a, b = trange(q[2], q[3])
            lo, hi = self.lrange(q[1])
            if lo >= a: return self.set_range(q[1], b + 1, hi)
            if hi <= b: return self.set_range(q[1], lo, a - 1)
            return True
        self.q[q] = t
        return True

    # --- operations
    def cast(self, v, w, sg):
        v = self.simp(v)
        if v.k == 'c': return C(wrap(v.x, w, sg), w, sg)
        if v.k == 'q':
            t = self.truth(v)
            if t is not None: return C(int(t), w, sg)
            if w == 1: return v
            return self.from_bits(self.bits(v) + [0] * (w - 1), w, sg)
        lo, hi = self.range(v); a, b = trange(w, sg)
        if v.k == 'l' and a <= lo and hi <= b: return Int(w, sg, 'l', v.x)
        bs = self.bits(v)
        if w <= v.w: bs = bs[:w]
        else: bs = bs + [(bs[-1] if v.sg else 0)] * (w - v.w)
        return self.from_bits(bs, w, sg)
    def derived(self, op, a, b, w, sg):
        return mksym((op, self.ekey(a), self.ekey(b)), w, sg)
    def ekey(self, v): return (v.k, v.x, v.w, v.sg)
    def binop(self, op, a, b):
        """returns Int (or (Int, ovf Int) for WithOverflow)."""
        a = self.simp(a); b = self.simp(b)
        w, sg = a.w, a.sg
        ov = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            if base != 'Mul' and b.k == 'c' and b.x == 0: return (a, FALSE) if ov else a
            if base == 'Add' and a.k == 'c' and a.x == 0: return (b, FALSE) if ov else b
            la, lb = lin_of(a), lin_of(b)
            if la is None and base != 'Mul' : la = self.as_lin(a)
            if lb is None and base != 'Mul': lb = self.as_lin(b)
            if base == 'Mul' and la is not None and lb is not None and la[1] and lb[1]: la = None
            if base == 'Mul':
                la = la if la is not None else self.as_lin(a); lb = lb if lb is not None else self.as_lin(b)
                if la[1] and lb[1]:
                    D = (('mul',) + tuple(sorted((self.ekey(a), self.ekey(b)), key=repr)), 2 * w, sg)
                    A, Bq = self.range(a), self.range(b)
                    ps = [A[0] * Bq[0], A[0] * Bq[1], A[1] * Bq[0], A[1] * Bq[1]]
                    x = (0, ((D, 1),))
                    self.set_range(x, min(ps), max(ps))
                else:
                    x = lin_scale(lb, la[0]) if not la[1] else lin_scale(la, lb[0])
            else: x = lin_add(la, lb, 1 if base == 'Add' else -1)
            lo, hi = self.lrange(x); tl, th = trange(w, sg)
            if tl <= lo and hi <= th:
                r = self.simp(Int(w, sg, 'l', x)) if x[1] else C(x[0], w, sg)
                return (r, FALSE) if ov else r
            if not x[1]:
                r = C(wrap(x[0], w, sg), w, sg)
                return (r, TRUE) if ov else r
            if ov:
                q = cond('ovf', x, w, sg)
                t = self.truth(q)
                return (Int(w, sg, 'l', x), q if t is None else B(t))
            if op.endswith('Unchecked'): return Int(w, sg, 'l', x)
            if base == 'Mul':
                for p, q in ((a, b), (b, a)):
                    if q.k == 'c' and q.x > 0 and q.x & (q.x - 1) == 0: return self.binop('Shl', p, C(q.x.bit_length() - 1, 32, False))
            if base == 'Add' and a == b: return self.binop('Shl', a, C(1, 32, False))
            return mksym(('wrap', base, self.ekey(a), self.ekey(b)), w, sg)
        if base in ('Div', 'Rem'):
            if a.k == 'c' and b.k == 'c' and b.x:
                q = abs(a.x) // abs(b.x); q = q if (a.x < 0) == (b.x < 0) else -q
                return C(wrap(q, w, sg) if base == 'Div' else a.x - q * b.x, w, sg)
            if b.k == 'c' and b.x > 0 and b.x & (b.x - 1) == 0 and self.range(a)[0] >= 0:
                if base == 'Div': return self.binop('Shr', a, C(b.x.bit_length() - 1, w, sg))
                return self.binop('BitAnd', a, C(b.x - 1, w, sg))
            r = self.derived(base, a, b, w, sg)
            if b.k == 'c' and b.x > 0:
                lo, hi = self.range(a)
                if lo >= 0:
                    if base == 'Div': self.set_range(r.x, lo // b.x, hi // b.x)
                    else: self.set_range(r.x, 0, min(b.x - 1, hi))
            return r
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if w == 1 and (a.k == 'q' or b.k == 'q'): return self.boolop(base, a, b)
            x, y = self.bits(a), self.bits(b)
            out = []
            for p, r in zip(x, y):
                if base == 'BitXor': out.append(bxor(p, r)); continue
                if base == 'BitAnd':
                    if p == 0 or r == 0: out.append(0)
                    elif p == 1: out.append(r)
                    elif r == 1 or p == r: out.append(p)
                    elif bxor(p, r) == 1: out.append(0)
                    else: out.append(atom((('and',) + tuple(sorted((p, r), key=repr)), 1, False), 0))
                else:
                    if p == 1 or r == 1: out.append(1)
                    elif p == 0: out.append(r)
                    elif r == 0 or p == r: out.append(p)
                    elif bxor(p, r) == 1: out.append(1)
                    else: out.append(atom((('or',) + tuple(sorted((p, r), key=repr)), 1, False), 0))
            return self.from_bits(out, w, sg)
        if base in ('Shl', 'Shr'):
            if b.k == 'c':
                n = b.x % w if True else b.x
                x = self.bits(a)
                if base == 'Shl': out = [0] * n + x[:w - n]
                else: out = x[n:] + [(x[-1] if sg else 0)] * n
                return self.from_bits(out, w, sg)
            return self.derived(base, a, b, w, sg)
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.cmp(base, a, b)
        if base == 'Cmp':
            return None
        raise NotImplementedError(op)
    def as_lin(self, v):
        v = self.simp(v)
        l = lin_of(v)
        if l is not None: return l
        return self.bits_lin(v) or self.bits_sym(v)
    def bits_sym(self, v):
        """a symbol for a value known bit by bit, one symbol for all its zero and sign extensions."""
        bs = list(self.bits(v)); sg = v.sg
        if sg and bs[-1] == 0: sg = False
        while len(bs) > 1 and (bs[-1] == bs[-2] if sg else bs[-1] == 0): bs.pop()
        return (0, (((('bits', tuple(bs)), len(bs), sg), 1),))
    def bits_lin(self, v):
        """the affine form of a concatenation of whole unsigned values, when it is one."""
        bs = self.bits(v)
        if v.sg and bs[-1] != 0: return None
        x = (0, ()); i = 0
        while i < len(bs):
            b = bs[i]
            if b in (0, 1): x = lin_add(x, (b << i, ())); i += 1; continue
            if b[1] or len(b[0]) != 1: return None
            (S, k), = b[0]
            if k: return None
            lo, hi = self.srange(S)
            if lo < 0 or hi == 0: return None
            n = hi.bit_length()
            if bs[i:i + n] != self.symbits(S, n): return None
            y = S[0][1] if S[0].__class__ is tuple and S[0] and S[0][0] == 'lin' else (0, ((S, 1),))
            x = lin_add(x, lin_scale(y, 1 << i)); i += n
        return x
    def boolop(self, base, a, b):
        ta, tb = self.truth(a), self.truth(b)
        if base == 'BitAnd':
            if ta is False or tb is False: return FALSE
            if ta is True: return b
            if tb is True: return a
        if base == 'BitOr':
            if ta is True or tb is True: return TRUE
            if ta is False: return b
            if tb is False: return a
        if base == 'BitXor':
            if ta is not None: return self.unop('Not', b) if ta else b
            if tb is not None: return self.unop('Not', a) if tb else a
        return cond(base, a, b)
    def cmp(self, base, a, b):
        if base == 'Ne': return self.unop('Not', self.cmp('Eq', a, b))
        if base == 'Gt': return self.cmp('Lt', b, a)
        if base == 'Ge': return self.unop('Not', self.cmp('Lt', a, b))
        if base == 'Le': return self.unop('Not', self.cmp('Lt', b, a))
        if base == 'Eq':
            if a.w == 1:
                ta, tb = self.truth(a), self.truth(b)
                if ta is not None: return b if ta else self.unop('Not', b)
                if tb is not None: return a if tb else self.unop('Not', a)
                if self.sub and a.k in 'lb' and b.k in 'lb':
                    d = bxor(self.bits(a)[0], self.bits(b)[0])
                    if d in (0, 1): return B(d == 0)
            if a.k == 'c' and b.k != 'c': a, b = b, a
            elif b.k != 'c' and repr(b.x) < repr(a.x): a, b = b, a
            q = cond('eq', a, b)
        else: q = cond('lt', a, b)
        t = self.truth(q)
        return q if t is None else B(t)
    def unop(self, op, a):
        a = self.simp(a)
        if op == 'Not':
            if a.w == 1:
                t = self.truth(a)
                if t is not None: return B(not t)
                if a.k == 'q' and a.x[0] == 'not': return a.x[1]
                return cond('not', a)
            return self.from_bits([bxor(x, 1) for x in self.bits(a)], a.w, a.sg)
        if op == 'Neg':
            if a.k == 'c': return C(wrap(-a.x, a.w, a.sg), a.w, a.sg)
            bs = self.bits(a)
            if all(x == 0 for x in bs[1:]):
                return self.from_bits([bs[0]] * a.w, a.w, a.sg)
            la = self.as_lin(a)
            x = lin_scale(la, -1)
            lo, hi = self.lrange(x); tl, th = trange(a.w, a.sg)
            if tl <= lo and hi <= th: return Int(a.w, a.sg, 'l', x)
            return mksym(('neg', self.ekey(a)), a.w, a.sg)
        raise NotImplementedError(op)
