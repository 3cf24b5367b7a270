"""Whole-program rules (recursion, unsafe code, marker traits) and the small public helpers: constructors,
element readers, vectors of varints."""
import os, re
from events import *
from engine import occ
from codec import Replay, Mismatch, Roles, returns_future
from schema import SPEC
from proto import ok_err
import varint, models, dump, values, formats

# ---- recursion ------------------------------------------------------------------------------------
LOCAL = 'parquet_format_safe::'
def strings(x, out):
    if x.__class__ is str: out.add(x)
    elif x.__class__ is list or x.__class__ is tuple:
        for y in x: strings(y, out)
    elif x.__class__ is dict:
        for y in x.values(): strings(y, out)
def graph(P):
    """call graph over the instantiated bodies.  A call through a protocol trait leads to the compact
    implementation and to the default method; forwarding through a box leads nowhere (the boxes are a
    finite type chosen by the caller, and are shown elsewhere to only forward)."""
    keys = P.bodies
    impl = {}; readers = {}
    for r in P.roots:
        tr = short(r.get('impl_trait') or r.get('in_trait') or '')
        if tr in PROTO and 'boxed::Box<' not in r['key'].split(' as ')[0]:
            if tr in ('ReadThrift', 'AsyncReadThrift'):
                if r.get('impl_self') is not None: readers[(tr, P.ts(r['impl_self']))] = r['key']
            else: impl.setdefault((tr, r['name']), []).append(r['key'])
    succ = {}; opaque = 0; edges = 0
    for k, b in keys.items():
        s = set()
        if 'boxed::Box<' in k.split(' as ')[0] and '::protocol::' in k: succ[k] = s; continue
        found = set(); strings(b['blocks'], found)
        s |= {x for x in found if x in keys}
        for bl in b['blocks']:
            if not bl or not bl[1] or bl[1][0] != 'call' or bl[1][1].__class__ is not dict: continue
            c = bl[1][1]
            if c.get('r') in ('event', 'virtual') and c.get('trait_local'):
                tr, m = short(c['trait']), c.get('m')
                s |= set(impl.get((tr, m), ()))
                d = default_body(P, c['trait'], m)
                if d: s.add(d)
                for a in c.get('own') or ():
                    t = P.ts(a) if a.__class__ is int else None
                    for x in ('ReadThrift', 'AsyncReadThrift'):
                        if (x, t) in readers: s.add(readers[(x, t)])
                if not s: opaque += 1
        succ[k] = s; edges += len(s)
    return succ, edges
def sccs(succ):
    idx = {}; low = {}; on = set(); stack = []; out = []; n = 0
    for r in succ:
        if r in idx: continue
        work = [(r, iter(succ[r]))]; idx[r] = low[r] = n; n += 1; stack.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in succ: continue
                if w not in idx:
                    idx[w] = low[w] = n; n += 1; stack.append(w); on.add(w); work.append((w, iter(succ[w]))); break
                if w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = stack.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    if len(c) > 1 or v in succ[v]: out.append(c)
    return out
def islocal(P, k): return k.lstrip('<').startswith(LOCAL) or ('<' in k and LOCAL in k.split(' as ')[0])
def check_recursion(P):
    succ, edges = graph(P)
    skip = {k for k in succ if '::skip_till_depth' in k}
    viol = []
    if not any(r['name'] == 'skip_till_depth' for r in P.roots): viol.append(('missing', 'no skip_till_depth', None))
    g = {k: {x for x in s if x not in skip} for k, s in succ.items() if k not in skip}
    for c in sccs(g):
        loc = [k for k in c if defined_here(P, k)]
        if loc: viol.append(('recursion', 'recursion without a depth limit: %s' % ' -> '.join(sorted(loc)[:6]), P.bodies[sorted(loc)[0]].get('span')))
    nl = sum(1 for k in succ if defined_here(P, k))
    return viol, {'functions': nl, 'edges': edges, 'analysed': [k for k in succ if defined_here(P, k)]}
def defined_here(P, k):
    sp = P.bodies[k].get('span') or ''
    return isinstance(sp, str) and sp.startswith('src/')
def check_types(P):
    """no type of the crate contains itself: dropping, cloning and comparing values does not recurse with them."""
    adts = {i: t for i, t in enumerate(P.T) if t['k'] == 'adt' and t['path'].startswith(LOCAL)}
    succ = {}
    def kids(i, seen):
        t = P.T[i]; out = set()
        if i in seen: return out
        seen.add(i)
        for a in list(t.get('args') or []) + [t.get('e')] + list(t.get('ts') or []):
            if a.__class__ is int:
                out.add(a) if a in adts else out.update(kids(a, seen))
        return out
    for i, t in adts.items():
        s = set()
        for v in t['v']:
            for f in v['f']: s |= {f[1]} if f[1] in adts else kids(f[1], set())
        succ[i] = s
    viol = [('recursion', 'the type %s contains itself' % P.ts(c[0]), None) for c in sccs(succ)]
    return viol, {'types': len(adts)}

# ---- unsafe code, marker traits ---------------------------------------------------------------------
TOK = re.compile(r'''//[^\n]*|/\*|r(\#*)"|b?"(?:\\.|[^"\\])*"|b?'(?:\\[^u]|\\u\{[^}]*\}|[^'\\])'|'\w+|[A-Za-z_]\w*|\S''', re.S)
def tokens(s):
    i = 0
    while True:
        m = TOK.search(s, i)
        if not m: return
        t = m.group(0); i = m.end()
        if t == '/*':
            d = 1
            while d and i < len(s):
                if s.startswith('/*', i): d += 1; i += 2
                elif s.startswith('*/', i): d -= 1; i += 2
                else: i += 1
        elif t.startswith('r') and t.endswith('"'):
            e = s.find('"' + '#' * len(m.group(1)), i); i = e + 1 + len(m.group(1)) if e >= 0 else len(s)
        elif t.startswith('r#') and False: pass
        else: yield t, m.start()
def check_unsafe(P):
    viol = []; nf = 0; nt = 0
    for sp in P.d['unsafe']: viol.append(('unsafe', 'unsafe block', sp))
    for r in P.roots:
        if r['unsafe']: viol.append(('unsafe', 'unsafe function %s' % r['path'], None))
    for i in P.d['impls']:
        if i['unsafe'] and not i['derived']: viol.append(('unsafe', 'unsafe impl of %s for %s' % (i['trait'], i['self']), None))
    # code that this configuration leaves out
    root = os.path.join(dump.REPO, 'src')
    for d, ds, fs in os.walk(root):
        for f in fs:
            if not f.endswith('.rs'): continue
            nf += 1; s = open(os.path.join(d, f), encoding='utf-8', errors='replace').read()
            for t, p in tokens(s):
                nt += 1
                if t == 'unsafe': viol.append(('unsafe', 'the keyword unsafe in %s' % os.path.relpath(os.path.join(d, f), dump.REPO), '%s:%d' % (os.path.relpath(os.path.join(d, f), dump.REPO), s.count('\n', 0, p) + 1)))
    if not nf: viol.append(('missing', 'no source files', None))
    return viol, {'files': nf, 'tokens': nt, 'functions': len(P.roots), 'impls': len(P.d['impls'])}
def check_send(P):
    viol = []; n = 0
    for x in P.d['sends']:
        n += 1
        if not x['send']: viol.append(('send', 'the future of %s cannot be sent to another thread' % x['path'], x['span']))
    if n < 200: viol.append(('missing', 'only %d asynchronous functions' % n, None))
    return viol, {'futures': n}
def check_marks(P):
    viol = []; n = 0; seen = set()
    for m in P.d['marks']:
        nm = short(m['path'])
        if '::parquet_format::' in m['path'] and m['pub']:
            n += 1; seen.add(nm)
            for k, w in (('send', 'sent to another thread'), ('sync', 'shared between threads'), ('clone', 'cloned'), ('eq', 'compared')):
                if not m[k]: viol.append(('send', '%s cannot be %s' % (nm, w), m['span']))
            if m['lifetimes']: viol.append(('send', '%s borrows' % nm, m['span']))
            if not m['freeze']: viol.append(('send', '%s can change behind a shared reference' % nm, m['span']))
        elif m['pub'] and nm.startswith('TCompact'):
            n += 1
            if not m['send']: viol.append(('send', '%s cannot be sent although its transport can' % nm, m['span']))
    for nm in SPEC:
        if nm not in seen: viol.append(('missing', 'no type %s' % nm, None))
    return viol, {'types': n}

VALUE_FN = {('PartialEq', 'eq'): 'equality', ('PartialEq', 'ne'): 'equality', ('Clone', 'clone'): 'clone', ('Ord', 'cmp'): 'ordering',
            ('PartialOrd', 'partial_cmp'): 'ordering', ('Hash', 'hash'): 'hash'}
for _m in ('lt', 'le', 'gt', 'ge'): VALUE_FN['PartialOrd', _m] = 'ordering'

# ---- the asynchronous feature only adds ---------------------------------------------------------------
LEFT = None     # what of the default build is not, unchanged, part of the full build (set when both are loaded)
KIND = {'roots': 'the signature of', 'types': 'the type', 'consts': 'the constant', 'impls': 'the implementation', 'traits': 'the trait', 'adts': 'the type',
        'statics': 'the static', 'exports': 'the public name', 'bodies': 'the code of'}
def check_adds(P):
    if LEFT is None: return [('stuck', 'the full build was not loaded', None)], {}
    left, n = LEFT
    # code that is itself shared follows its cause: name the causes, functions first
    own = [x for x in left if x[0][0] in ('roots', 'adts', 'consts', 'traits', 'statics', 'exports', 'impls')] + [x for x in left if x[0][0] in ('bodies', 'types')]
    viol = [('feature', '%s %s %s when async is enabled' % (KIND[k], nm, 'is different' if there else 'is missing'), None) for (k, nm), there in own[:40]]
    return viol, {'items': n}

# ---- nothing but the arguments ------------------------------------------------------------------------
# parts of the standard library that read or change what is neither an argument nor a local of the call
AMBIENT = ('std::env', 'std::time', 'std::fs', 'std::net', 'std::process', 'std::thread', 'std::os', 'std::sys', 'std::io::stdio', 'std::panic', 'std::panicking', 'std::backtrace', 'std::alloc',
           'std::random', 'std::hash::random', 'core::arch', 'core::task::wake', 'std::rt')
CRATES = ('core', 'alloc', 'std', 'parquet_format_safe', 'futures_util', 'futures_io', 'futures_core', 'futures')
def crate_of(p):
    m = re.match(r'[<&( *]*(?:mut |dyn |const )*([A-Za-z_]\w*)', p)
    return m.group(1) if m else ''
def check_effects(P):
    """no function of the crate calls into the process's surroundings, by itself or through what is inlined from the standard library"""
    viol = []; calls = 0
    for k, b in P.bodies.items():
        if not islocal(P, k): continue
        for bl in b['blocks']:
            if not bl or not bl[1]: continue
            for stt in bl[0]:
                for c in casts(stt):
                    if 'PointerExposeProvenance' in c or 'FnPtrToInt' in c: viol.append(('ambient', '%s observes an address' % k, b.get('span')))
            if bl[1][0] != 'call' or bl[1][1].__class__ is not dict: continue
            c = bl[1][1]; calls += 1
            for p in {str(c.get('path') or ''), str(c.get('rpath') or c.get('path') or '')}:
                q = p.lstrip('<&')
                if q.startswith(AMBIENT) and not q.startswith('std::panic::Location'): viol.append(('ambient', '%s calls %s' % (k, p), bl[1][-1] if bl[1][-1].__class__ is str else None))
                elif crate_of(p) not in CRATES and '::' in p and c.get('trait') is None: viol.append(('ambient', '%s calls %s, of a crate that is not analysed' % (k, p), None))
    return viol, {'analysed': [k for k in P.bodies if islocal(P, k)], 'calls': calls}
def casts(x):
    if x.__class__ is list:
        if len(x) > 1 and x[0] == 'cast' and x[1].__class__ is str: yield x[1]
        for y in x: yield from casts(y)
def check_statics(P):
    """no variable outlives a call: every static is immutable (a table), or a table computed on first use"""
    viol = []
    for t in P.d['statics']:
        if t['mut'] or t['thread_local'] or not t['freeze']:
            if t.get('adt', '').endswith('::LazyLock') and not t['mut'] and not t['thread_local'] and t.get('inner_freeze'): continue
            viol.append(('ambient', 'the static %s keeps state between calls (%s)' % (t['path'], t['ty']), t['span']))
    # state behind a constant: thread-local keys
    for k, b in P.bodies.items():
        if not islocal(P, k): continue
        for bl in b['blocks']:
            if bl and bl[1] and bl[1][0] == 'call' and bl[1][1].__class__ is dict and 'LocalKey' in str(bl[1][1].get('path')):
                viol.append(('ambient', '%s uses a thread-local variable' % k, None))
    return viol, {'statics': len(P.d['statics'])}

# ---- seeking ----------------------------------------------------------------------------------------
class SeekClient(EventClient):
    """ghost 'n': how often the transport was sought."""
    def partition(self, E, st): return st.g['n']
    def alloc(self, E, st, what, n, fallible, ty): pass
    def effect(self, E, st, name, args, rty):
        if short(name[0]) != 'Seek' or name[1] != 'seek': return self.bad(E, st, 'io', 'calls %s of the transport' % name[1])
        st.g['n'] += 1
        if st.g['n'] > 1: return self.bad(E, st, 'io', 'seeks twice')
        if args[1] != self.POS: return self.bad(E, st, 'value', 'seeks to another position')
        r = self_ref(E, args[0])
        if r.__class__ is not Ref or r.r != self.ROOT or r.p != self.AT: return self.bad(E, st, 'io', 'seeks something other than the transport')
        return Opq(rty, ('ev', 'res'))
def check_seek(P, key):
    cl = SeekClient(); E = Engine(P, cl, unroll=12); b = P.bodies[key]
    args = [E.mk(t, ('arg', i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]
    ty = E.T[b['locals'][1]]['e']
    def params(ty, at):
        for i, f in enumerate(E.T[ty]['v'][0]['f']):
            t = E.T[f[1]]
            if t['k'] == 'param': yield at + ((0, i),)
            elif t['k'] == 'adt' and t['path'].startswith(LOCAL) and len(t.get('v', ())) == 1 and len(at) < 3: yield from params(f[1], at + ((0, i),))
    ps = list(params(ty, ()))
    if len(ps) != 1: return [('missing', 'the protocol does not hold exactly one transport', None)], {}
    cl.ROOT = args[0].r; cl.AT = ps[0]; cl.POS = args[1]
    before = E.mk(ty, ('obj',)); before = E.expand(None, before)
    exits = E.run(key, args, {'n': 0}, mem={cl.ROOT: before})
    for ex in exits:
        if ex.kind != 'ret': cl.viol.append(('stuck' if ex.kind == 'stuck' else 'panic', str(ex.val), ex.span)); continue
        if not ex.st.g['n']: cl.viol.append(('io', 'does not seek the transport', ex.span)); continue
        try: same = E.term(ex.val) in (('ev', 'res'),) or rebuilt(E, ex.st, ex.val)
        except Stuck: same = False
        if not same: cl.viol.append(('value', 'does not return what the transport returned: %r' % (ex.val,), ex.span))
        after = ex.st.mem.get(cl.ROOT)
        if after is not None and after.__class__ is Agg:
            for i, (x, y) in enumerate(zip(before.f, after.f)):
                if i != ps[0] and x != y and E.term(x) != E.term(y): cl.viol.append(('state', 'seeking changes the protocol member %s' % fs[i][0], ex.span))
    if not exits and not cl.viol: cl.viol.append(('io', 'never returns', b.get('span')))
    return cl.viol, {'exits': len(exits), 'steps': E.steps, 'analysed': sorted(E.analysed)}
def rebuilt(E, st, v):
    """Ok(p) / Err(e) of the transport's own Ok(p) / Err(e)."""
    if v.__class__ is not Agg or E.path_of(v.ty) != 'core::result::Result': return False
    if E.known_variant(st, Opq(v.ty, ('ev', 'res'))) != v.v: return False
    w = E.expand(st, Opq(v.ty, ('ev', 'res')), v.v)
    return all(x == y or E.term(x) == E.term(y) for x, y in zip(v.f, w.f))


# ---- constructors -----------------------------------------------------------------------------------
def args_in(t, out):
    if isinstance(t, tuple):
        if len(t) >= 2 and t[0] == 'arg': out.add(t[1])
        for x in t: args_in(x, out)
    return out
def terms_of(E, v):
    if v.__class__ is Int: return args_in(v.x, set()) if v.k != 'c' else set()
    return args_in(E.term(v), set())
def check_ctor(P, key, fields):
    """argument i becomes the member fields[i]."""
    def fn(E, ex, o, args):
        v = ex.val
        if len(args) != len(fields): raise Mismatch('value', 'takes %d arguments for %d members' % (len(args), len(fields)))
        for i, f in enumerate(fields):
            x = o.fld(v, f)
            generic = E.T[P.bodies[key]['locals'][1 + i]]['k'] == 'param'
            if generic:
                if terms_of(E, x) != {i} and not (x.__class__ is Agg and not x.f and E.path_of(x.ty) == 'core::option::Option' and len(ex.st.f.rng) + len(ex.st.f.q) > 0): raise Mismatch('value', 'the member %s becomes %r, not argument %d' % (f, x, i + 1))
            elif not o.same(x, args[i]): raise Mismatch('value', 'the member %s becomes %r, not argument %d' % (f, x, i + 1))
    return varint.run_all(P, key, None, fn)
def parts(E, st, v):
    """the fields of a struct, and of the structs of the crate it is made of"""
    for i, f in enumerate(E.T[v.ty]['v'][0]['f']):
        x = E.proj(st, v, (0, i)); yield x
        if x.__class__ is Agg and (E.path_of(x.ty) or '').startswith(LOCAL) and len(E.T[x.ty].get('v', ())) == 1: yield from parts(E, st, x)
def check_proto_ctor(P, key, writer):
    def fn(E, ex, o, args):
        v = ex.val; ty = v.ty; R = Roles(E, ty, writer)
        g = lambda r: R.of(E, o.st(), v, r)
        if not o.eq(g('last'), C(0, 16, True)): raise Mismatch('state', 'starts with the last field id %r' % (g('last'),))
        s = models.seqval(E, ex.st, g('stack'))
        if s.s: raise Mismatch('state', 'starts with enclosing structures')
        if o.variant(g('pending'))[0] != 'None': raise Mismatch('state', 'starts with a pending boolean')
        if not writer and not o.eq(g('remaining'), args[1]): raise Mismatch('budget', 'starts with the budget %r instead of the one given' % (g('remaining'),))
        if not any(terms_of(E, x) == {0} for x in parts(E, o.st(), v)): raise Mismatch('io', 'does not keep the transport')
    return varint.run_all(P, key, None, fn)

# ---- element readers --------------------------------------------------------------------------------
class ElemClient(EventClient):
    def partition(self, E, st): return st.g['n']
    def may_panic(self, E, st): return False
    def alloc(self, E, st, what, n, fallible, ty): self.bad(E, st, 'budget', '%s while reading an element' % what)
    def step(self, E, st, tr, m, sty, args, rty):
        if st.g['n']: return self.bad(E, st, 'io', 'performs a second operation')
        if m not in self.ops: return self.bad(E, st, 'io', 'reads by %s' % m)
        r = self_ref(E, args[0])
        if r.__class__ is not Ref or r.r != self.region: raise Stuck('operation on another protocol')
        st.g['n'] = 1
        f = self.failed(E, st, rty, m)
        v = E.mk(E.payload_ty(rty, 'Ok'), ('ev', 'res')); st.g['res'] = v
        return [(st, E.ok(rty, v)), f]
def check_elem(P, key, ops):
    cl = ElemClient(); cl.ops = ops
    E = Engine(P, cl, unroll=2); b = P.bodies[key]
    args = [E.mk(t, ('arg', i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]
    cl.region = args[0].r
    exits = E.run(key, args, {'n': 0, 'fail': None}, asyn=returns_future(P, key))
    oks = 0
    for ex in exits:
        r = ok_err(E, cl, ex, None)
        if r is None: continue
        n, p = r
        if n == 'Err': cl.viol.append(('err-valid', 'returns an error of its own', ex.span)); continue
        oks += 1
        if not ex.st.g['n']: cl.viol.append(('io', 'reads nothing', ex.span)); continue
        w = ex.st.g['res']
        if not (p == w or p.__class__ is Int and w.__class__ is Int and ex.st.f.truth(ex.st.f.cmp('Eq', p, ex.st.f.cast(w, p.w, p.sg))) is True):
            cl.viol.append(('value', 'does not return what it read: %r' % (p,), ex.span))
    if not oks and not cl.viol: cl.viol.append(('err-valid', 'never succeeds', b.get('span')))
    return cl.viol, {'exits': len(exits), 'steps': E.steps, 'events': cl.nev, 'analysed': sorted(E.analysed)}
ELEM = {'alloc::string::String': ('read_string',), 'bool': ('read_bool',), 'u8': ('read_byte', 'read_i8'), 'i64': ('read_i64',), 'i32': ('read_i32',), 'i16': ('read_i16',), 'i8': ('read_i8',), 'f64': ('read_double',), 'alloc::vec::Vec<u8>': ('read_bytes',)}
NEED = ('alloc::string::String', 'bool', 'u8', 'i64', 'alloc::vec::Vec<u8>')

def obs(P, feature):
    from obligations import Ob, missing
    out = []
    def add(fam, subject, fn, args=(), side='sync'): out.append(Ob(fam, subject, side, fn, args, feature))
    add('recursion', 'call graph', check_recursion)
    add('recursion', 'types', check_types)
    add('unsafe', 'crate', check_unsafe)
    if feature == 'full': add('send', 'futures', check_send, (), 'async')
    add('send', 'value types', check_marks)
    add('effects', 'calls', check_effects)
    add('effects', 'statics', check_statics)
    if feature == 'none': add('feature', 'default build', check_adds)
    ks = [r['key'] for r in P.roots if r['name'] == 'encode_var_vec' and r.get('in_trait')]
    add('encode-vec', 'encode_var_vec', check_encode_vec, (ks[0],)) if len(ks) == 1 else None
    # constructors
    seen = {}
    for r in P.roots:
        if r['name'] == 'new' and r.get('impl_self') is not None and not r.get('impl_trait'): seen[P.T[r['impl_self']].get('path', '').split('::')[-1]] = r
    for name, d in SPEC.items():
        if d.kind == 'struct' and name in seen: add('ctor', name, check_ctor, (seen[name]['key'], [m.name for m in d.m]))
    for name, fs in (('TMessageIdentifier', ['name', 'message_type', 'sequence_number']), ('TStructIdentifier', ['name']), ('TFieldIdentifier', ['name', 'field_type', 'id']),
                     ('TListIdentifier', ['element_type', 'size']), ('TSetIdentifier', ['element_type', 'size']), ('TMapIdentifier', ['key_type', 'value_type', 'size'])):
        if name not in seen: add('ident', name, missing('no %s::new' % name))
        else: add('ident', name, check_ctor, (seen[name]['key'], fs))
    for name, w in (('TCompactInputProtocol', False), ('TCompactOutputProtocol', True), ('TCompactInputStreamProtocol', False), ('TCompactOutputStreamProtocol', True)):
        st = 'Stream' in name
        if st and feature == 'none': continue
        if name not in seen: add('proto-new', name, missing('no %s::new' % name), (), 'async' if st else 'sync')
        else: add('proto-new', name, check_proto_ctor, (seen[name]['key'], w), 'async' if st else 'sync')
    # element readers
    for tr, side in (('ReadThrift', 'sync'), ('AsyncReadThrift', 'async')):
        if side == 'async' and feature == 'none': continue
        have = {P.ts(r['impl_self']): r['key'] for r in P.roots if short(r.get('impl_trait') or '') == tr}
        for t in NEED:
            if t not in have: add('elem', t, missing('%s is not implemented for %s' % (tr, t)), (), side)
        for t, k in have.items():
            if '::parquet_format::' in t: continue
            if t not in ELEM: add('elem', t, missing('an element type the specification does not know'), (), side)
            else: add('elem', t, check_elem, (k, ELEM[t]), side)
    # values as values
    have = {}
    for r in P.roots:
        tr = r.get('impl_trait') or ''
        if r.get('impl_self') is None or not tr.startswith('core::') or (tr.split('::')[-1], r['name']) not in VALUE_FN: continue
        have.setdefault((VALUE_FN[tr.split('::')[-1], r['name']], r['impl_self']), []).append(r)
    types = {}
    for fam, ty in have: types.setdefault(P.ts(ty).split('::')[-1], ty)
    for name, d in SPEC.items():
        for fam, what in (('equality', 'compared'), ('clone', 'cloned'), ('ordering', 'ordered'), ('hash', 'hashed')):
            if (fam, types.get(name)) not in have: add(fam, name, missing('%s cannot be %s' % (name, what)))
    for (fam, ty), rs in sorted(have.items(), key=lambda x: (x[0][0], P.ts(x[0][1]))):
        for r in rs: add(fam, P.ts(ty).split('::')[-1] + ('' if r['name'] in ('eq', 'clone', 'cmp', 'hash') else '@' + r['name']), values.check, (r['key'], ty, r['name']))
    texts = set()
    for r in P.roots:
        tr = r.get('impl_trait') or ''
        if tr not in ('core::fmt::Debug', 'core::fmt::Display') or r['name'] != 'fmt' or r.get('impl_self') is None or P.T[r['impl_self']]['k'] != 'adt': continue
        nm = P.ts(r['impl_self']).split('::')[-1]; texts.add((tr, nm))
        add('format', nm + '@' + tr.split('::')[-1], formats.check, (r['key'], r['impl_self'], tr.split('::')[-1]))
    for nm in list(SPEC) + ['Error']:
        if ('core::fmt::Debug', nm) not in texts: add('format', nm + '@Debug', missing('%s has no Debug' % nm))
    for nm in ('Error', 'TransportError', 'ProtocolError', 'ApplicationError', 'TMessageType', 'TType'):
        if ('core::fmt::Display', nm) not in texts: add('format', nm + '@Display', missing('%s has no Display' % nm))
    ks = [r for r in P.roots if r['name'] == 'seek' and (r.get('impl_trait') or '').endswith('::Seek')]
    if not ks: add('seek', 'seek', missing('the input protocol does not seek'))
    for r in ks: add('seek', 'seek', check_seek, (r['key'],), 'async' if 'Stream' in r['key'] else 'sync')
    return out

# ---- a varint as a vector ---------------------------------------------------------------------------
def sp_lin(v): return v.x
class VecClient(EventClient):
    def partition(self, E, st): return st.g['n']
    def alloc(self, E, st, what, n, fallible, ty): pass
    def effect(self, E, st, name, args, rty):
        m = name[1]
        if m == 'required_space':
            v = E.mk(rty, ('ev', 'space')); st.f.set_range(v.x, 1, 10); return v
        if m == 'encode_var':
            st.g['n'] += 1
            if args[0] != self.SELF: return self.bad(E, st, 'value', 'encodes another number')
            w = models.content(E, st, args[1])
            sp = mksym(('ev', 'space'), 64, False)
            st.f.set_range(sp_lin(sp), 1, 10)
            r = args[1]
            n = E.seq_len(w) if r.m is None else r.m[1]
            if st.f.truth(st.f.cmp('Le', sp, n)) is not True: return self.bad(E, st, 'value', 'encodes into a buffer of %r bytes' % (n,))
            # the buffer now starts with the encoding
            v = E.region(st, r.r)
            l = E.seq_len_t(('ev', 'enc'))
            if r.p or st.f.truth(st.f.cmp('Eq', r.m[0] if r.m else C(0, 64, False), C(0, 64, False))) is not True: raise Stuck('encoding into the middle of a buffer')
            st.f.assume(st.f.cmp('Eq', l, sp), True)
            if st.f.truth(st.f.cmp('Eq', n, sp)) is True: st.mem[r.r] = Opq(v.ty, ('ev', 'enc'))
            else: st.mem[r.r] = Seq(v.ty, (('s', ('ev', 'enc'), l), ('s', ('ev', 'rest'), st.f.binop('Sub', n, l))))
            return E.mk(rty, ('ev', 'space'))
        raise Stuck('operation %s' % m)
def is_enc(E, ex):
    v = ex.val
    t = E.term(v)
    if t == ('ev', 'enc'): return True
    if t.__class__ is tuple and t[0] == 'window' and t[1][0] == 'seqt' and t[1][1][0][:2] == ('s', ('ev', 'enc')):
        # the first `space` bytes of a larger buffer
        lo, n = (x if x.__class__ is Int else C(x, 64, False) if x.__class__ is int else Int(64, False, 'l', x) for x in t[2:4])
        return ex.st.f.simp(lo) == C(0, 64, False) and ex.st.f.truth(ex.st.f.cmp('Eq', n, E.seq_len_t(('ev', 'enc')))) is True
    return v.__class__ is Seq and len(v.s) == 1 and v.s[0][0] == 's' and v.s[0][1] == ('ev', 'enc') and ex.st.f.simp(v.s[0][2]) == ex.st.f.simp(E.seq_len_t(('ev', 'enc')))
def check_encode_vec(P, key):
    cl = VecClient(); E = Engine(P, cl, unroll=12); b = P.bodies[key]
    args = [E.mk(t, ('arg', i)) for i, t in enumerate(b['locals'][1:1 + b['argc']])]
    cl.SELF = args[0]
    exits = E.run(key, args, {'n': 0})
    for ex in exits:
        if ex.kind != 'ret': cl.viol.append(('stuck' if ex.kind == 'stuck' else 'panic', str(ex.val), ex.span)); continue
        if not is_enc(E, ex): cl.viol.append(('value', 'does not return the encoding: %r' % (ex.val,), ex.span))
    if not exits and not cl.viol: cl.viol.append(('value', 'never returns', b.get('span')))
    return cl.viol, {'exits': len(exits), 'steps': E.steps, 'analysed': sorted(E.analysed)}
