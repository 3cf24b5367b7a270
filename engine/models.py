"""Transfer functions for the standard library and the transport crates.

A model returns a value, or a list of (state, value) alternatives, or None when there is no model."""
from domain import Int, C, B, TRUE, FALSE, mksym, cond, wrap, trange, lin_of, BASE
import engine as eng
from engine import Agg, Opq, Ref, Seq, Fut, FnV, Stuck, UNIT

TRANSPORT = {
    'alloc::io::read::Read', 'core::io::write::Write', 'core::io::seek::Seek', 'core::io::read::Read', 'std::io::Read', 'std::io::Write',
    'futures_util::io::AsyncReadExt', 'futures_util::io::AsyncWriteExt', 'futures_util::io::AsyncSeekExt',
}
def deref(E, st, v):
    n = 0
    while v.__class__ is Ref:
        v = E.read(st, (v.r, v.p)); n += 1
        if n > 20: raise Stuck('deref chain')
    return v
def rd(E, st, ref):
    if ref.__class__ is not Ref: return ref
    return E.read(st, (ref.r, ref.p))
def heap(E, st, v):
    k = 0
    base = E.locid(E.loc(st))
    while ('heap', base, k) in st.mem: k += 1
    r = ('heap', base, k)
    st.mem[r] = v
    return r
def usz(n): return C(n, 64, False)
def slice_of(E, st, ref):
    """normalise a reference to a slice / array / vec / str to one carrying (start, len)."""
    while True:
        if ref.__class__ is Agg and len(ref.f) == 1: ref = ref.f[0]; continue
        if ref.__class__ is not Ref: raise Stuck('slice of %r' % (ref,))
        if ref.m is not None: return ref
        v = rd(E, st, ref)
        if v.__class__ is Ref: ref = v; continue
        return Ref(ref.r, ref.p, (usz(0), E.seq_len(v)))
def whole(E, st, s):
    """the sequence value denoted by a slice reference (must be a whole sequence or a known window)."""
    v = rd(E, st, s)
    a, n = st.f.simp(s.m[0]), st.f.simp(s.m[1])
    full = st.f.simp(E.seq_len(v))
    if a.k == 'c' and a.x == 0 and n == full: return v
    if a.k == 'c' and n.k == 'c' and n.x <= 64:
        return Seq(None, tuple(('e', E.elem(st, v, usz(a.x + i))) for i in range(n.x)))
    return Opq(None, ('window', E.term(v), a, n))
def content(E, st, ref):
    """content (term-carrying value) of a str / [u8] / String / Vec<u8> reference."""
    v = ref
    while v.__class__ is Ref:
        if v.m is not None: return whole(E, st, v)
        v = rd(E, st, v)
    return v
def with_len_fork(E, st, q):
    """[(state, truth)] for the feasible truths of a condition."""
    t = st.f.truth(q)
    if t is not None: return [(st, t)]
    E.note_template(q)
    s2 = st.fork()
    out = []
    if s2.f.assume(q, True): out.append((s2, True))
    if st.f.assume(q, False): out.append((st, False))
    return out

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

# --- boxes and pins
@model('alloc::boxed::Box::<T>::pin')
def box_pin(E, st, c, a, rty):
    return Agg(rty, 0, (Ref(heap(E, st, a[0])),))
@model('alloc::boxed::Box::<T>::new', 'alloc::boxed::box_new')
def box_new(E, st, c, a, rty): return Ref(heap(E, st, a[0]))
@model('<F as core::future::into_future::IntoFuture>::into_future', 'core::hint::must_use', 'core::convert::identity',
       '<I as core::iter::traits::collect::IntoIterator>::into_iter', '<T as core::convert::From<T>>::from', 'core::hint::black_box',
       'alloc::string::String::into_boxed_str', '<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut_')
def ident(E, st, c, a, rty): return a[0]
@model('core::future::get_context')
def getctx(E, st, c, a, rty): return E.mk(rty, ('ctx',))
@model('core::pin::Pin::<Ptr>::new_unchecked', 'core::pin::Pin::<Ptr>::new')
def pin_new(E, st, c, a, rty): return Agg(rty, 0, (a[0],))
@model('<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut', '<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref',
       '<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut')
def box_deref(E, st, c, a, rty):
    v = rd(E, st, a[0])
    if v.__class__ is Ref: return v
    raise Stuck('box deref %r' % (v,))

# --- formatting
@model('core::fmt::Arguments::<\'a>::new', 'core::fmt::Arguments::<\'a>::from_str', 'core::fmt::rt::Argument::<\'_>::new_display', 'core::fmt::rt::Argument::<\'_>::new_debug',
       'core::fmt::Arguments::<\'a>::new_const', 'core::fmt::Arguments::<\'a>::new_v1', 'core::fmt::rt::Argument::<\'_>::new_lower_hex', 'core::fmt::rt::Argument::<\'_>::new_upper_hex')
def fmtargs(E, st, c, a, rty): return Opq(rty, ('fmt',))
@model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def fmt_format(E, st, c, a, rty): return Opq(rty, ('fmtmsg',))
@model('<T as alloc::string::ToString>::to_string', 'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', '<alloc::string::String as core::convert::From<&str>>::from',
       '<T as alloc::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec', 'alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned',
       '<alloc::string::String as core::clone::Clone>::clone', '<alloc::vec::Vec<T, A> as core::clone::Clone>::clone')
def to_string(E, st, c, a, rty):
    v = content(E, st, a[0])
    if v.__class__ is Opq:
        k = None if v.ty is None else E.T[v.ty]
        if c['path'].endswith('ToString::to_string'):
            # only strings are rendered as themselves
            isstr = v.t and v.t[0] == 'lit' or (k is not None and (k['s'] in ('str', 'alloc::string::String', 'std::string::String') or k.get('path') == 'alloc::string::String')) or (v.ty is None)
            if not isstr: return Opq(rty, ('fmtmsg',))
        return Opq(rty, v.t)
    if v.__class__ is Seq: return Seq(rty, v.s)
    if v.__class__ is Agg and c['path'].endswith('ToString::to_string'): return Opq(rty, ('fmtmsg',))
    if v.__class__ is Agg: return Seq(rty, tuple(('e', x) for x in v.f))
    return Opq(rty, ('fmtmsg',))

# --- strings
@model('alloc::string::String::new', 'alloc::vec::Vec::<T>::new', '<alloc::vec::Vec<T> as core::default::Default>::default', '<alloc::string::String as core::default::Default>::default')
def vec_new(E, st, c, a, rty): return Seq(rty, ())
@model('alloc::vec::Vec::<T>::with_capacity', 'alloc::string::String::with_capacity')
def vec_withcap(E, st, c, a, rty):
    r = E.cl.alloc(E, st, 'with_capacity', a[0], False, rty)
    return Seq(rty, ())
@model('core::str::<impl str>::as_bytes', 'alloc::string::String::as_bytes', 'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice',
       '<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
       'core::array::<impl [T; N]>::as_slice', 'core::array::<impl [T; N]>::as_mut_slice', '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref',
       'alloc::slice::<impl core::borrow::Borrow<[T]> for alloc::vec::Vec<T, A>>::borrow')
def as_slice(E, st, c, a, rty): return slice_of(E, st, a[0])
@model('<alloc::string::String as core::ops::deref::Deref>::deref', 'alloc::string::String::as_str', '<alloc::string::String as core::convert::AsRef<str>>::as_ref',
       '<alloc::string::String as core::borrow::Borrow<str>>::borrow')
def str_deref(E, st, c, a, rty): return a[0]
@model('alloc::string::String::into_bytes')
def into_bytes(E, st, c, a, rty):
    v = a[0]
    return Seq(rty, v.s) if v.__class__ is Seq else Opq(rty, v.t)
@model('alloc::string::String::from_utf8')
def from_utf8(E, st, c, a, rty):
    t = E.term(a[0])
    out = []
    ok, er = E.payload_ty(rty, 'Ok'), E.payload_ty(rty, 'Err')
    if a[0].__class__ is Seq and not a[0].s: return E.ok(rty, Seq(ok, ()))
    for s, tr in with_len_fork(E, st, mksym(('utf8?', t), 1, False)):
        out.append((s, E.ok(rty, Opq(ok, ('utf8', t))) if tr else E.err(rty, Opq(er, ('utf8err', t)))))
    return out
@model('core::str::converts::from_utf8')
def from_utf8_str(E, st, c, a, rty):
    t = E.term(content(E, st, a[0]))
    out = []
    ok, er = E.payload_ty(rty, 'Ok'), E.payload_ty(rty, 'Err')
    for s, tr in with_len_fork(E, st, mksym(('utf8?', t), 1, False)):
        out.append((s, E.ok(rty, Ref(('X', ('utf8', t), E.T[ok]['e']))) if tr else E.err(rty, Opq(er, ('utf8err', t)))))
    return out
def str_eq(E, st, a, b):
    x, y = content(E, st, a), content(E, st, b)
    tx, ty = E.term(x), E.term(y)
    if tx == ty: return TRUE
    if tx.__class__ is tuple and ty.__class__ is tuple and tx[:1] == ('lit',) == ty[:1]: return FALSE
    return mksym(('streq',) + tuple(sorted((tx, ty), key=repr)), 1, False)
@model('core::str::traits::<impl core::cmp::PartialEq for str>::eq', '<alloc::string::String as core::cmp::PartialEq>::eq')
def streq(E, st, c, a, rty): return str_eq(E, st, a[0], a[1])

# --- vectors
@model('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::string::String::len')
def vec_len(E, st, c, a, rty): return st.f.simp(slice_of(E, st, a[0]).m[1])
@model('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty')
def vec_is_empty(E, st, c, a, rty): return st.f.cmp('Eq', st.f.simp(slice_of(E, st, a[0]).m[1]), usz(0))
def seqval(E, st, v):
    if v.__class__ is Seq: return v
    if v.__class__ is Opq: return Seq(v.ty, (('s', v.t, E.seq_len(v)),))
    raise Stuck('sequence %r' % (v,))
def norm(E, s): return s
@model('alloc::vec::Vec::<T, A>::push')
def vec_push(E, st, c, a, rty):
    r = a[0]
    v = seqval(E, st, rd(E, st, r))
    E.cl.alloc(E, st, 'push', usz(1), False, v.ty)
    E.write(st, (r.r, r.p), Seq(v.ty, v.s + (('e', a[1]),)))
    return UNIT
@model('alloc::vec::Vec::<T, A>::pop')
def vec_pop(E, st, c, a, rty):
    r = a[0]
    v = rd(E, st, r)
    return do_pop(E, st, r, v, rty)
def do_pop(E, st, r, v, rty):
    v = seqval(E, st, v)
    some = (lambda x: E.enum(rty, 'Some', x)) if rty is not None else (lambda x: x)
    none = (lambda: E.enum(rty, 'None')) if rty is not None else (lambda: UNIT)
    if v.s and v.s[-1][0] == 'e':
        E.write(st, (r.r, r.p), Seq(v.ty, v.s[:-1]))
        return [(st, some(v.s[-1][1]))]
    if not v.s: return [(st, none())]
    _, t, n = v.s[-1]
    if n != E.seq_len_t(t) : raise Stuck('pop from %r' % (v,))
    out = []
    for s, empty in with_len_fork(E, st, st.f.cmp('Eq', n, usz(0))):
        if empty:
            out += do_pop(E, s, r, Seq(v.ty, v.s[:-1]), rty)
        else:
            t2 = ('pre', t)
            n2 = E.seq_len_t(t2)
            if not s.f.assume(s.f.cmp('Eq', n2, s.f.binop('Sub', n, usz(1))), True): raise Stuck('pop length')
            E.write(s, (r.r, r.p), Seq(v.ty, v.s[:-1] + (('s', t2, n2),)))
            out.append((s, some(E.elem(s, Opq(v.ty, t), s.f.binop('Sub', n, usz(1))))))
    return out
@model('alloc::vec::Vec::<T, A>::clear', 'alloc::string::String::clear')
def vec_clear(E, st, c, a, rty):
    v = rd(E, st, a[0]); E.write(st, (a[0].r, a[0].p), Seq(v.ty, ())); return UNIT
@model('alloc::vec::Vec::<T, A>::try_reserve', 'alloc::vec::Vec::<T, A>::try_reserve_exact')
def vec_try_reserve(E, st, c, a, rty):
    v = rd(E, st, a[0])
    E.cl.alloc(E, st, 'try_reserve', a[1], True, v.ty)
    s2 = st.fork(); s2.g['oom'] = True
    if v.__class__ is Seq and not v.s: E.write(st, (a[0].r, a[0].p), Seq(v.ty, (), st.f.simp(a[1])))
    return [(st, E.ok(rty, UNIT)), (s2, E.err(rty, Opq(E.payload_ty(rty, 'Err'), ('alloc_err',))))]
@model('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact', 'alloc::string::String::reserve')
def vec_reserve(E, st, c, a, rty):
    v = rd(E, st, a[0])
    E.cl.alloc(E, st, 'reserve', a[1], False, v.ty)
    return UNIT
@model('alloc::vec::Vec::<T, A>::resize')
def vec_resize(E, st, c, a, rty):
    v = seqval(E, st, rd(E, st, a[0]))
    n = st.f.simp(a[1])
    if v.cap is None or st.f.truth(st.f.cmp('Le', n, v.cap)) is not True: E.cl.alloc(E, st, 'resize', n, False, v.ty)
    if v.s: raise Stuck('resize of a non-empty vector')
    if n.k == 'c' and n.x <= 64: nv = Seq(v.ty, (('e', a[2]),) * n.x)
    else:
        t = ('rep', a[2], n)
        s = (('len', t), 64, False); BASE[s] = (0, eng.LENMAX)
        l = E.seq_len_t(t)
        if not st.f.assume(st.f.cmp('Eq', l, n), True): return []
        nv = Opq(v.ty, t)
    E.write(st, (a[0].r, a[0].p), nv)
    return UNIT
@model('alloc::vec::from_elem', 'alloc::vec::from_elem::<T>')
def from_elem(E, st, c, a, rty):
    n = st.f.simp(a[1])
    E.cl.alloc(E, st, 'from_elem', n, False, rty)
    if n.k == 'c' and n.x <= 64: return Seq(rty, (('e', a[0]),) * n.x)
    t = ('rep', a[0], n)
    l = E.seq_len_t(t)
    if not st.f.assume(st.f.cmp('Eq', l, n), True): return []
    return Opq(rty, t)
@model('alloc::vec::Vec::<T, A>::extend_from_slice')
def extend(E, st, c, a, rty):
    v = seqval(E, st, rd(E, st, a[0]))
    s = slice_of(E, st, a[1]); w = whole(E, st, s)
    E.cl.alloc(E, st, 'extend', s.m[1], False, v.ty)
    w = seqval(E, st, w if w.__class__ is not Agg else Seq(None, tuple(('e', x) for x in w.f)))
    E.write(st, (a[0].r, a[0].p), Seq(v.ty, v.s + w.s))
    return UNIT
@model('alloc::vec::Vec::<T, A>::truncate')
def trunc(E, st, c, a, rty):
    v = seqval(E, st, rd(E, st, a[0])); n = st.f.simp(a[1])
    if n.k == 'c' and all(x[0] == 'e' for x in v.s):
        E.write(st, (a[0].r, a[0].p), Seq(v.ty, v.s[:n.x])); return UNIT
    full = E.seq_len(v)
    if st.f.simp(st.f.binop('Sub', full, n)) == usz(1):
        last = do_pop(E, st, a[0], v, None)
        return [(s2, UNIT) for s2, _ in last]
    if n == full: return UNIT
    raise Stuck('truncate')
def last_ref(E, st, a, rty, which):
    s = slice_of(E, st, a)
    out = []
    for s2, empty in with_len_fork(E, st, st.f.cmp('Eq', st.f.simp(s.m[1]), usz(0))):
        if empty: out.append((s2, E.enum(rty, 'None'))); continue
        n = s2.f.simp(s.m[1])
        i = s.m[0] if which == 'first' else s2.f.binop('Add', s.m[0], s2.f.binop('Sub', n, usz(1)))
        out.append((s2, E.enum(rty, 'Some', Ref(s.r, s.p + (i,)))))
    return out
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def sl_first(E, st, c, a, rty): return last_ref(E, st, a[0], rty, 'first')
@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def sl_last(E, st, c, a, rty): return last_ref(E, st, a[0], rty, 'last')

# --- slices
def index(E, st, c, a, rty, get=False):
    s = slice_of(E, st, a[0])
    i = a[1]
    n = s.m[1]
    def ok(s2, v): return (s2, E.enum(rty, 'Some', v) if get else v)
    def bad(s2, msg): return (s2, E.enum(rty, 'None')) if get else (s2, ('panic', msg))
    if i.__class__ is Int:
        out = []
        for s2, t in with_len_fork(E, st, st.f.cmp('Lt', i, n)):
            if not t: out.append(bad(s2, 'index out of bounds')); continue
            at = s2.f.simp(s2.f.binop('Add', s.m[0], i))
            try: E.read(s2, (s.r, s.p + (at,))); out.append(ok(s2, Ref(s.r, s.p + (at,))))
            except eng.SplitOn as e:
                for k in range(e.n):
                    s3 = s2.fork()
                    if not s3.f.assume(s3.f.cmp('Eq', e.i, C(k, e.i.w, e.i.sg)), True): continue
                    out.append(ok(s3, Ref(s.r, s.p + (C(k, e.i.w, e.i.sg),))))
        return out
    p = E.path_of(i.ty) if i.__class__ in (Agg, Opq) and i.ty is not None else None
    f = lambda k: E.proj(st, i, (0, k))
    if p == 'core::ops::range::RangeFull': return [ok(st, s)]
    if p == 'core::ops::range::Range': lo, hi = f(0), f(1)
    elif p == 'core::ops::range::RangeTo': lo, hi = usz(0), f(0)
    elif p == 'core::ops::range::RangeFrom': lo, hi = f(0), n
    elif p == 'core::ops::range::RangeToInclusive': lo, hi = usz(0), st.f.binop('Add', f(0), usz(1))
    elif p == 'core::ops::range::RangeInclusive': lo, hi = f(0), st.f.binop('Add', f(1), usz(1))
    else: raise Stuck('index by %s' % p)
    out = []
    for s2, t in with_len_fork(E, st, st.f.cmp('Le', lo, hi)):
        if not t: out.append(bad(s2, 'slice index starts after its end')); continue
        for s3, t3 in with_len_fork(E, s2, s2.f.cmp('Le', hi, n)):
            if not t3: out.append(bad(s3, 'slice index out of range')); continue
            out.append(ok(s3, Ref(s.r, s.p, (s3.f.binop('Add', s.m[0], lo), s3.f.binop('Sub', hi, lo)))))
    return out
@model('core::slice::index::<impl core::ops::index::Index<I> for [T]>::index', 'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut',
       'core::array::<impl core::ops::index::Index<I> for [T; N]>::index', 'core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut',
       '<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut')
def sl_index(E, st, c, a, rty): return index(E, st, c, a, rty)
@model('core::str::traits::<impl core::ops::index::Index<I> for str>::index')
def str_index(E, st, c, a, rty):
    i = a[1]; p = E.path_of(i.ty) if i.__class__ in (Agg, Opq) and i.ty is not None else None
    if p == 'core::ops::range::RangeFull': return a[0]
    v = a[0]
    while v.__class__ is Ref and v.r[0] != 'lit': v = rd(E, st, v)
    if v.__class__ is not Ref or v.m is not None or v.r[1].__class__ is not str: return None
    t = v.r[1].encode(); f = lambda k: st.f.simp(E.proj(st, i, (0, k)))
    if p == 'core::ops::range::Range': lo, hi = f(0), f(1)
    elif p == 'core::ops::range::RangeTo': lo, hi = usz(0), f(0)
    elif p == 'core::ops::range::RangeFrom': lo, hi = f(0), usz(len(t))
    else: return None
    if lo.k != 'c' or hi.k != 'c': return None
    if not lo.x <= hi.x <= len(t): return [(st, ('panic', 'slice of a text out of range'))]
    try: return Ref(('lit', t[lo.x:hi.x].decode()))
    except UnicodeDecodeError: return [(st, ('panic', 'slice of a text inside a character'))]
@model('core::slice::raw::from_mut', 'core::slice::raw::from_ref', 'core::slice::from_mut', 'core::slice::from_ref')
def sl_from_ref(E, st, c, a, rty):
    if rd(E, st, a[0]).__class__ is not Int: return None
    return Ref(a[0].r, a[0].p, (usz(0), usz(1)))
@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def sl_get(E, st, c, a, rty): return index(E, st, c, a, rty, True)
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::slice::iter::Iter::<\'a, T>::new', '<&\'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter',
       'core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &\'a [T]>::into_iter', 'core::array::<impl core::iter::traits::collect::IntoIterator for &\'a [T; N]>::into_iter')
def sl_iter(E, st, c, a, rty):
    s = slice_of(E, st, a[0])
    return Agg(rty, 0, (Ref(s.r, s.p, (usz(0), E.seq_len(rd(E, st, s)))), s.m[0], st.f.binop('Add', s.m[0], s.m[1])))
@model('<core::slice::iter::Iter<\'a, T> as core::iter::traits::iterator::Iterator>::next', '<core::slice::iter::IterMut<\'a, T> as core::iter::traits::iterator::Iterator>::next')
def sl_next(E, st, c, a, rty):
    it = rd(E, st, a[0])
    if it.__class__ is not Agg: raise Stuck('iterator %r' % (it,))
    base, pos, end = it.f
    out = []
    for s, t in with_len_fork(E, st, st.f.cmp('Lt', pos, end)):
        if not t: out.append((s, E.enum(rty, 'None'))); continue
        E.write(s, (a[0].r, a[0].p), Agg(it.ty, 0, (base, s.f.binop('Add', pos, usz(1)), end)))
        out.append((s, E.enum(rty, 'Some', Ref(base.r, base.p + (pos,)))))
    return out
def halves(checked):
    """a slice cut in two windows."""
    def f(E, st, c, a, rty):
        s = slice_of(E, st, a[0]); n = s.m[1]; k = a[1]
        out = []
        pair = E.payload_ty(rty, 'Some') if checked == 'opt' else rty
        for s2, t in ([(st, True)] if checked == 'un' else with_len_fork(E, st, st.f.cmp('Le', k, n))):
            if not t: out.append((s2, E.enum(rty, 'None')) if checked == 'opt' else (s2, ('panic', 'split beyond the end'))); continue
            v = Agg(pair, 0, (Ref(s.r, s.p, (s.m[0], k)), Ref(s.r, s.p, (s2.f.binop('Add', s.m[0], k), s2.f.binop('Sub', n, k)))))
            out.append((s2, E.enum(rty, 'Some', v) if checked == 'opt' else v))
        return out
    return f
for x in ('', '_mut'):
    M['core::slice::<impl [T]>::split_at' + x] = halves('')
    M['core::slice::<impl [T]>::split_at%s_checked' % x] = halves('opt')
    M['core::slice::<impl [T]>::split_at%s_unchecked' % x] = halves('un')
@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def copy_from(E, st, c, a, rty):
    d, s = slice_of(E, st, a[0]), slice_of(E, st, a[1])
    out = []
    for s2, t in with_len_fork(E, st, st.f.cmp('Eq', d.m[1], s.m[1])):
        if not t: out.append((s2, ('panic', 'copy between slices of different lengths'))); continue
        n, m = s2.f.simp(d.m[1]), s2.f.simp(s.m[1])
        k = n if n.k == 'c' else m
        src = rd(E, s2, s)
        if k.k == 'c' and k.x <= 64:
            xs = [E.elem(s2, src, s2.f.simp(s2.f.binop('Add', s.m[0], usz(i)))) for i in range(k.x)]
            for i, x in enumerate(xs): E.write(s2, (d.r, d.p + (s2.f.simp(s2.f.binop('Add', d.m[0], usz(i))),)), x)
        else:
            dst = rd(E, s2, d); v = whole(E, s2, s)
            if s2.f.simp(d.m[0]) != usz(0) or s2.f.simp(E.seq_len(dst)) != n: raise Stuck('copy into a window')
            E.write(s2, (d.r, d.p), v.__class__(dst.ty, v.s if v.__class__ is Seq else v.t) if v.__class__ in (Seq, Opq) else v)
        out.append((s2, UNIT))
    return out
@model('core::slice::<impl [T]>::fill')
def sl_fill(E, st, c, a, rty):
    d = slice_of(E, st, a[0]); n = st.f.simp(d.m[1]); at = st.f.simp(d.m[0])
    if n.k != 'c' or n.x > 64 or at.k != 'c': raise Stuck('fill of a window of unknown size')
    for i in range(n.x): E.write(st, (d.r, d.p + (usz(at.x + i),)), a[1])
    return UNIT
@model('core::slice::<impl [T]>::reverse')
def sl_reverse(E, st, c, a, rty):
    d = slice_of(E, st, a[0]); n = st.f.simp(d.m[1]); at = st.f.simp(d.m[0])
    if n.k != 'c' or n.x > 64 or at.k != 'c': raise Stuck('reversal of a window of unknown size')
    v = rd(E, st, d)
    xs = [E.elem(st, v, usz(at.x + i)) for i in range(n.x)]
    for i, x in enumerate(reversed(xs)): E.write(st, (d.r, d.p + (usz(at.x + i),)), x)
    return UNIT
@model('core::array::<impl core::convert::TryFrom<&[T]> for [T; N]>::try_from', 'core::array::<impl core::convert::TryFrom<&mut [T]> for [T; N]>::try_from')
def arr_try_from(E, st, c, a, rty):
    s = slice_of(E, st, a[0]); aty = E.payload_ty(rty, 'Ok')
    k = E.T[aty].get('len')
    if k is None or k > 64: return None
    out = []
    for s2, t in with_len_fork(E, st, st.f.cmp('Eq', s.m[1], usz(k))):
        if not t: out.append((s2, E.enum(rty, 'Err', E.mk(E.payload_ty(rty, 'Err'), ('arr', 'err'))))); continue
        v = rd(E, s2, s)
        out.append((s2, E.ok(rty, Agg(aty, 0, tuple(E.elem(s2, v, s2.f.simp(s2.f.binop('Add', s.m[0], usz(i)))) for i in range(k))))))
    return out
@model('<core::slice::iter::Iter<\'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back', '<core::slice::iter::IterMut<\'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back')
def sl_next_back(E, st, c, a, rty):
    it = rd(E, st, a[0])
    if it.__class__ is not Agg: raise Stuck('iterator %r' % (it,))
    base, pos, end = it.f
    out = []
    for s, t in with_len_fork(E, st, st.f.cmp('Lt', pos, end)):
        if not t: out.append((s, E.enum(rty, 'None'))); continue
        at = s.f.binop('Sub', end, usz(1))
        E.write(s, (a[0].r, a[0].p), Agg(it.ty, 0, (base, pos, at)))
        out.append((s, E.enum(rty, 'Some', Ref(base.r, base.p + (at,)))))
    return out
@model('<core::slice::iter::Iter<\'a, T> as core::iter::traits::iterator::Iterator>::size_hint', '<core::slice::iter::IterMut<\'a, T> as core::iter::traits::iterator::Iterator>::size_hint')
def sl_size_hint(E, st, c, a, rty):
    it = rd(E, st, a[0]); n = st.f.binop('Sub', it.f[2], it.f[1])
    return Agg(rty, 0, (n, E.enum(E.T[rty]['f'][1], 'Some', n)))
@model('<core::slice::iter::Iter<\'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len', '<core::slice::iter::IterMut<\'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len')
def sl_iter_len(E, st, c, a, rty):
    it = rd(E, st, a[0]); return st.f.binop('Sub', it.f[2], it.f[1])
@model('<core::slice::iter::Iter<\'a, T> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked', '<core::slice::iter::IterMut<\'a, T> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked')
def sl_get_unchecked(E, st, c, a, rty):
    """the item so many places on (`zip` only asks for those that exist)."""
    it = rd(E, st, a[0]); base, pos, end = it.f
    at = st.f.simp(st.f.binop('Add', pos, a[1]))
    if st.f.truth(st.f.cmp('Lt', at, end)) is not True: raise Stuck('unchecked item of an iterator')
    return Ref(base.r, base.p + (at,))
@model('core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next')
def range_next(E, st, c, a, rty):
    it = rd(E, st, a[0])
    lo, hi = E.proj(st, it, (0, 0)), E.proj(st, it, (0, 1))
    if lo.__class__ is not Int: return None
    out = []
    for s, t in with_len_fork(E, st, st.f.cmp('Lt', lo, hi)):
        if not t: out.append((s, E.enum(rty, 'None'))); continue
        E.write(s, (a[0].r, a[0].p + ((0, 0),)), s.f.binop('Add', lo, C(1, lo.w, lo.sg)))
        out.append((s, E.enum(rty, 'Some', lo)))
    return out
@model('core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::RangeInclusive<A>>::next')
def rangeincl_next(E, st, c, a, rty):
    # the position is kept in twice the width: one past the end is the exhausted iterator
    it = rd(E, st, a[0])
    lo, hi = E.proj(st, it, (0, 0)), E.proj(st, it, (0, 1))
    if lo.__class__ is not Int: return None
    if E.proj(st, it, (0, 2)) != FALSE: raise Stuck('exhausted flag of an inclusive range')
    w = 2 * hi.w
    if lo.w != w: lo = st.f.cast(lo, w, True)
    out = []
    for s, t in with_len_fork(E, st, st.f.cmp('Le', lo, st.f.cast(hi, w, True))):
        if not t: out.append((s, E.enum(rty, 'None'))); continue
        E.write(s, (a[0].r, a[0].p + ((0, 0),)), s.f.binop('Add', lo, C(1, w, True)))
        out.append((s, E.enum(rty, 'Some', s.f.cast(lo, hi.w, hi.sg))))
    return out
@model('core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq')
def arreq(E, st, c, a, rty): raise Stuck('array comparison')

# --- memory
@model('core::mem::replace', 'core::option::Option::<T>::replace', 'core::option::Option::<T>::insert')
def mem_replace(E, st, c, a, rty):
    v = rd(E, st, a[0])
    n = a[1]
    if c['path'].endswith('Option::<T>::replace'): n = E.enum(v.ty, 'Some', n)
    elif c['path'].endswith('insert'):
        E.write(st, (a[0].r, a[0].p), E.enum(v.ty, 'Some', n)); return Ref(a[0].r, a[0].p + ((1, 0),))
    E.write(st, (a[0].r, a[0].p), n)
    return v
@model('core::option::Option::<T>::take')
def opt_take(E, st, c, a, rty):
    v = rd(E, st, a[0])
    E.write(st, (a[0].r, a[0].p), E.enum(rty, 'None'))
    return v
@model('core::mem::take')
def mem_take(E, st, c, a, rty):
    v = rd(E, st, a[0])
    if v.__class__ is Int: d = C(0, v.w, v.sg)
    else:
        p = E.path_of(v.ty)
        if p == 'core::option::Option': d = E.enum(v.ty, 'None')
        elif p in ('alloc::vec::Vec', 'alloc::string::String'): d = Seq(v.ty, ())
        else: raise Stuck('mem::take')
    E.write(st, (a[0].r, a[0].p), d)
    return v
@model('core::mem::drop', 'core::mem::forget')
def mem_drop(E, st, c, a, rty): return UNIT
@model('core::mem::swap')
def mem_swap(E, st, c, a, rty):
    x, y = rd(E, st, a[0]), rd(E, st, a[1])
    E.write(st, (a[0].r, a[0].p), y); E.write(st, (a[1].r, a[1].p), x)
    return UNIT

# --- io errors
@model('alloc::io::error::<impl core::io::error::Error>::new')
def ioerr_new(E, st, c, a, rty): return Opq(rty, ('ioerr_new', a[0]))
@model('core::io::error::repr::Repr::new_simple', 'core::io::error::Error::from_kind_', '<core::io::error::Error as core::convert::From<core::io::error::ErrorKind>>::from')
def ioerr_simple(E, st, c, a, rty): return Opq(rty, ('ioerr_new', a[0]))
@model('alloc::io::error::<impl core::io::error::Error>::other')
def ioerr_other(E, st, c, a, rty): return Opq(rty, ('ioerr_other',))
@model('core::io::error::Error::kind')
def ioerr_kind(E, st, c, a, rty):
    v = rd(E, st, a[0])
    if v.__class__ is Opq and v.t[0] == 'ioerr_new': return v.t[1]
    return E.mk(rty, ('iokind', E.term(v)))

# --- numbers
def fork_ovf(E, st, x, w, sg, inside, outside):
    """x: affine form; value inside() when it fits, outside(state, low) otherwise."""
    q = cond('ovf', x, w, sg)
    t = st.f.truth(q)
    lo, hi = st.f.lrange(x); tl, th = trange(w, sg)
    if tl <= lo and hi <= th: return [(st, inside(st))]
    out = []
    over, under = st.fork(), st.fork()
    if st.f.assume(q, False): out.append((st, inside(st)))
    if hi > th and over.f.set_range(x, th + 1, hi): out.append((over, outside(over, False)))
    if lo < tl and under.f.set_range(x, lo, tl - 1): out.append((under, outside(under, True)))
    return out
def affine(E, st, op, a, b):
    from domain import lin_add, lin_scale
    f = st.f
    a, b = f.simp(a), f.simp(b)
    la, lb = f.as_lin(a), f.as_lin(b)
    if op == 'add': return lin_add(la, lb)
    if op == 'sub': return lin_add(la, lb, -1)
    if not la[1]: return lin_scale(lb, la[0])
    if not lb[1]: return lin_scale(la, lb[0])
    r = f.binop('MulWithOverflow', a, b)
    v = r[0]
    return v.x if v.k == 'l' else (v.x, ())
def mkint(x, w, sg): return C(x[0], w, sg) if not x[1] else Int(w, sg, 'l', x)
def checked(op):
    def f(E, st, c, a, rty):
        w, sg = a[0].w, a[0].sg
        x = affine(E, st, op, a[0], a[1])
        return fork_ovf(E, st, x, w, sg, lambda s: E.enum(rty, 'Some', s.f.simp(mkint(x, w, sg))), lambda s, low: E.enum(rty, 'None'))
    return f
def saturating(op):
    def f(E, st, c, a, rty):
        w, sg = a[0].w, a[0].sg
        x = affine(E, st, op, a[0], a[1])
        tl, th = trange(w, sg)
        return fork_ovf(E, st, x, w, sg, lambda s: s.f.simp(mkint(x, w, sg)), lambda s, low: C(tl if low else th, w, sg))
    return f
def wrapping(op):
    def f(E, st, c, a, rty): return st.f.binop({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[op], a[0], a[1])
    return f
for t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'):
    for op in ('add', 'sub', 'mul'):
        M['core::num::<impl %s>::checked_%s' % (t, op)] = checked(op)
        M['core::num::<impl %s>::saturating_%s' % (t, op)] = saturating(op)
        M['core::num::<impl %s>::wrapping_%s' % (t, op)] = wrapping(op)
    def to_le(E, st, c, a, rty):
        b = st.f.bits(a[0])
        return Agg(rty, 0, tuple(st.f.from_bits(b[i:i + 8], 8, False) for i in range(0, len(b), 8)))
    def to_be(E, st, c, a, rty):
        r = to_le(E, st, c, a, rty)
        return Agg(rty, 0, r.f[::-1])
    def from_le(E, st, c, a, rty):
        bits = []
        for x in a[0].f: bits += st.f.bits(x)
        t = E.T[rty]
        return st.f.from_bits(bits, t['w'], t['sg'])
    def from_be(E, st, c, a, rty): return from_le(E, st, c, [Agg(a[0].ty, 0, a[0].f[::-1])], rty)
    M['core::num::<impl %s>::to_le_bytes' % t] = M['core::num::<impl %s>::to_ne_bytes' % t] = to_le
    M['core::num::<impl %s>::from_le_bytes' % t] = M['core::num::<impl %s>::from_ne_bytes' % t] = from_le
    M['core::num::<impl %s>::to_be_bytes' % t] = to_be
    M['core::num::<impl %s>::from_be_bytes' % t] = from_be
def count_zeros(lead):
    """one state per position of the outermost set bit."""
    def f(E, st, c, a, rty):
        out = []; rest = st
        n = a[0].w
        for k in range(n):
            b = rest.f.bits(a[0])[n - 1 - k if lead else k]
            q = rest.f.from_bits([b], 1, False)
            t = rest.f.truth(q)
            if t is not False:
                s2 = rest.fork()
                if s2.f.assume(q, True): out.append((s2, C(k, 32, False)))
            if t is True or not rest.f.assume(q, False): return out
        return out + [(rest, C(n, 32, False))]
    return f
for t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'):
    M['core::num::<impl %s>::leading_zeros' % t] = count_zeros(True)
    M['core::num::<impl %s>::trailing_zeros' % t] = count_zeros(False)
def f64bits(E, st, v):
    if v.t[0] == 'f64of': return v.t[1]
    if v.t[0] == 'flt': return C(v.t[1], 64, False)
    return mksym(('f64bits', v.t), 64, False)
@model('core::f64::<impl f64>::to_bits')
def f_to_bits(E, st, c, a, rty): return f64bits(E, st, a[0])
@model('core::f64::<impl f64>::from_bits')
def f_from_bits(E, st, c, a, rty): return mkf(E, st, a[0], rty)
def mkf(E, st, v, rty):
    if v.k == 'l' and v.x[0] == 0 and len(v.x[1]) == 1 and v.x[1][0][1] == 1:
        n = v.x[1][0][0][0]
        if isinstance(n, tuple) and n[0] == 'f64bits': return Opq(rty, n[1])
    return Opq(rty, ('f64of', v))
def f_le(rev):
    def f(E, st, c, a, rty):
        b = st.f.bits(f64bits(E, st, a[0]))
        x = tuple(st.f.from_bits(b[i:i + 8], 8, False) for i in range(0, 64, 8))
        return Agg(rty, 0, x[::-1] if rev else x)
    return f
def f_from(rev):
    def f(E, st, c, a, rty):
        v = a[0]
        if v.__class__ is Opq: v = E.expand(st, v)
        bits = []
        for x in (v.f[::-1] if rev else v.f): bits += st.f.bits(x)
        return mkf(E, st, st.f.from_bits(bits, 64, False), rty)
    return f
M['core::f64::<impl f64>::to_le_bytes'] = M['core::f64::<impl f64>::to_ne_bytes'] = f_le(False)
M['core::f64::<impl f64>::to_be_bytes'] = f_le(True)
M['core::f64::<impl f64>::from_le_bytes'] = M['core::f64::<impl f64>::from_ne_bytes'] = f_from(False)
M['core::f64::<impl f64>::from_be_bytes'] = f_from(True)
@model('core::intrinsics::saturating_add')
def i_satadd(E, st, c, a, rty): return saturating('add')(E, st, c, a, rty)
@model('core::intrinsics::saturating_sub')
def i_satsub(E, st, c, a, rty): return saturating('sub')(E, st, c, a, rty)
@model('core::intrinsics::discriminant_value')
def i_discr(E, st, c, a, rty):
    v = rd(E, st, a[0])
    t = E.T[rty]
    if t['k'] == 'int': return E.discr(st, v, t['w'], t['sg'])
    return E.discr(st, v)
@model('core::intrinsics::cold_path', 'core::intrinsics::assume')
def i_unit(E, st, c, a, rty): return UNIT
@model('core::intrinsics::likely', 'core::intrinsics::unlikely')
def i_ident(E, st, c, a, rty): return a[0]
@model('core::intrinsics::ub_checks')
def i_ub(E, st, c, a, rty): return FALSE
@model('core::intrinsics::unreachable')
def i_unreach(E, st, c, a, rty):
    E.cl.on_unreachable(E, st); return []

@model('<T as alloc::borrow::ToOwned>::to_owned')
def own(E, st, c, a, rty): return rd(E, st, a[0])
def pick(less):
    """the smaller (larger) of two numbers: one state per outcome."""
    def f(E, st, c, a, rty):
        q = st.f.cmp('Lt', a[0], a[1])
        t = st.f.truth(q)
        out = []
        for v in (True, False):
            if t is (not v): continue
            s2 = st.fork()
            if s2.f.assume(q, v): out.append((s2, a[0] if v == less else a[1]))
        return out
    return f
M['core::intrinsics::integer_min'] = pick(True)
M['core::intrinsics::integer_max'] = pick(False)
@model('core::intrinsics::select_unpredictable')
def i_select(E, st, c, a, rty):
    out = []
    t = st.f.truth(a[0])
    for v in (True, False):
        if t is (not v): continue
        s2 = st.fork()
        if s2.f.assume(a[0], v): out.append((s2, a[1] if v else a[2]))
    return out
M['core::intrinsics::ctlz'] = M['core::intrinsics::ctlz_nonzero'] = count_zeros(True)
M['core::intrinsics::cttz'] = M['core::intrinsics::cttz_nonzero'] = count_zeros(False)
@model('core::intrinsics::ctpop')
def i_ctpop(E, st, c, a, rty):
    b = st.f.bits(a[0])
    k = C(0, 32, False)
    for x in b: k = st.f.binop('Add', k, st.f.cast(st.f.from_bits([x], 1, False), 32, False))
    return k
@model('core::intrinsics::bswap')
def i_bswap(E, st, c, a, rty):
    b = st.f.bits(a[0])
    return st.f.from_bits([x for i in range(len(b) - 8, -1, -8) for x in b[i:i + 8]], a[0].w, a[0].sg)
@model('core::intrinsics::bitreverse')
def i_bitrev(E, st, c, a, rty): return st.f.from_bits(st.f.bits(a[0])[::-1], a[0].w, a[0].sg)
@model('core::intrinsics::disjoint_bitor')
def i_disj(E, st, c, a, rty): return st.f.binop('BitOr', a[0], a[1])
@model('core::intrinsics::exact_div', 'core::intrinsics::unchecked_div')
def i_div(E, st, c, a, rty): return st.f.binop('Div', a[0], a[1])
@model('core::intrinsics::unchecked_rem')
def i_rem(E, st, c, a, rty): return st.f.binop('Rem', a[0], a[1])
@model('core::intrinsics::is_val_statically_known')
def i_known(E, st, c, a, rty): return FALSE
def funnel(left):
    def f(E, st, c, a, rty):
        w = a[0].w
        hi, lo = st.f.bits(a[0]), st.f.bits(a[1])
        def at(s, k):
            x = (lo + hi)
            return s.f.from_bits(x[w - k:2 * w - k] if left else x[k:k + w], w, a[0].sg)
        n = st.f.simp(a[2])
        if n.k == 'c': return at(st, n.x)
        out = []
        for k in range(w):
            s2 = st.fork()
            if s2.f.assume(s2.f.cmp('Eq', n, C(k, n.w, n.sg)), True): out.append((s2, at(s2, k)))
        return out
    return f
def rotate(left):
    def f(E, st, c, a, rty):
        n = st.f.simp(a[1])
        k = C(n.x % a[0].w, n.w, n.sg) if n.k == 'c' else st.f.binop('Rem', n, C(a[0].w, n.w, n.sg))
        return funnel(left)(E, st, c, [a[0], a[0], k], rty)
    return f
M['core::intrinsics::rotate_left'] = rotate(True)
M['core::intrinsics::rotate_right'] = rotate(False)
M['core::intrinsics::unchecked_funnel_shl'] = funnel(True)
M['core::intrinsics::unchecked_funnel_shr'] = funnel(False)
# --- panics
def panics(E, st, c, a, rty):
    msg = ''
    for x in a:
        if x.__class__ is Ref and x.r[0] == 'lit': msg = x.r[1]
    return [(st, ('panic', msg or c['path']))]
for n in ('core::option::expect_failed', 'core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_nounwind_fmt', 'core::option::unwrap_failed', 'core::result::unwrap_failed',
          'core::panicking::panic_display', 'core::panicking::unreachable_display', 'core::panicking::panic_explicit', 'core::panicking::assert_failed', 'core::panicking::panic_bounds_check', 'std::panicking::begin_panic',
          'core::panicking::panic_nounwind', 'alloc::alloc::handle_alloc_error', 'std::process::abort', 'core::panicking::panic_str_2015', 'core::panicking::assert_failed_inner', 'core::slice::index::slice_index_fail'):
    M[n] = panics

SYNC_PROTO = ('TInputProtocol', 'TOutputProtocol', 'ReadThrift', 'VarInt')

def is_future_ty(E, ty):
    t = E.T[ty]
    if t['k'] != 'adt': return t['k'] == 'alias'
    if t['path'] == 'core::pin::Pin': return True
    if t['path'] == 'alloc::boxed::Box': return 'Future' in t['s']
    p = t['path']
    return p.startswith('futures_util::io::') and not p.endswith('::Take')
def call(E, st, c, a, rty, dest, target):
    E.cur = (dest, target)
    kind = c['r']
    path = c.get('rpath') or c['path']
    tr = c.get('trait')
    if tr == 'core::future::future::Future' and c.get('m') == 'poll':
        lv, v = E.find_future(st, a[0])
        if v.__class__ is Agg and v.ty is not None and E.T[v.ty]['k'] == 'adt' and kind == 'body' and c.get('rlocal'): return None
        return E.poll(st, a, dest, target, rty)
    if kind in ('event', 'virtual') or tr in TRANSPORT:
        m = c.get('m') or path.split('::')[-1]
        if tr in TRANSPORT:
            if m == 'by_ref': return a[0]
            if m == 'take': return Agg(rty, 0, (a[0], a[1]))
            if tr == 'futures_util::io::AsyncReadExt' or tr == 'futures_util::io::AsyncWriteExt':
                return Fut((tr, m), tuple(a), rty)
            if kind != 'body':
                return E.cl.effect(E, st, (tr, m), a, rty)
        if tr == 'core::convert::Into': return E.mk(rty, ('into', E.argterm(st, a[0])))
        if tr == 'core::convert::AsRef':
            return E.mkref(E.T[rty]['e'], ('asref', E.argterm(st, a[0])))
        if kind in ('event', 'virtual'):
            r = E.cl.event_path(E, st, c, a, rty)
            if r is not None: return r
            if is_future_ty(E, rty): return Fut((tr, m, c.get('self')), tuple(a), rty)
            return E.cl.effect(E, st, (tr, m, c.get('self')), a, rty)
    f = M.get(path) or M.get(c['path'])
    if f is not None: return f(E, st, c, a, rty)
    if path.endswith('::precondition_check'): return UNIT
    if kind == 'shim' or (tr and tr.startswith('core::ops::function::Fn') and kind != 'body'):
        if tr and tr.startswith('core::ops::function::Fn'):
            tup = a[1]
            fs = tup.f if tup.__class__ is Agg else ()
            return [(st, ('succ', E.call_value(st, a[0], list(fs), dest, target, rty)))]
        if c['path'] == 'core::clone::Clone::clone': return rd(E, st, a[0])
        return None
    if kind in ('extern', 'intrinsic', 'body') and tr == 'core::clone::Clone' and c.get('m') == 'clone' and not c.get('rlocal'):
        return rd(E, st, a[0])
    if tr == 'core::cmp::PartialEq' and c.get('m') in ('eq', 'ne') and kind == 'extern' and not c.get('rlocal'):
        r = str_eq(E, st, a[0], a[1])
        return r if c['m'] == 'eq' else st.f.unop('Not', r)
    return None
