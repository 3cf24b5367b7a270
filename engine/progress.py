"""Termination: the loops of a summarised function against a ranking.

After a function has been analysed to a fixpoint, every (loop head, invariant) pair is a node.  Each node is run
once more to the next loop heads; that gives the edges, each relating the memory at its start to the memory at its
end in the same symbols.  An edge on which the protocol delivered at least a byte is progress by itself (the input is
finite); the edges that are left may form a cycle only if some integer, window or sequence bounded on all of it
strictly moves towards its bound on an edge, does not move away on the others, and the rest, without that edge, is
well-founded in the same way."""
import heapq
from domain import Int, C, lin_of, lin_add, trange

Agg = Ref = Seq = Stuck = None       # set by engine.py
ON = False
HANGS = []
STAT = {}
LIMIT = 1 << 32

def leaves(E, st):
    """name of a place -> linear form of the number it holds."""
    out = {}
    def num(w, v):
        l = lin_of(v)
        if l is None:
            try: l = st.f.as_lin(v)
            except Exception: return
        if l is not None: out[w] = (l, v)
    def walk(w, v, d):
        c = v.__class__
        if d > 12: return
        if c is Int: num(w, v)
        elif c is Agg:
            if v.ty is not None and v.v.__class__ is int and E.T[v.ty].get('adt') == 'enum': out[w + ('variant',)] = ((v.v, ()), None)
            for i, x in enumerate(v.f): walk(w + (i,), x, d + 1)
        elif c is Ref:
            if v.m is not None and v.m.__class__ is tuple and len(v.m) == 2:
                for i, x in enumerate(v.m):
                    if x.__class__ is Int: num(w + ('m', i), x)
                if all(x.__class__ is Int for x in v.m):
                    a, b = [out.get(w + ('m', i)) for i in (0, 1)]
                    if a and b: out[w + ('m', 'end')] = (lin_add(a[0], b[0]), None)
        elif c is Seq:
            try: n = E.seq_len(v)
            except Exception: return
            if n.__class__ is Int: num(w + ('len',), n)
    for r, v in st.mem.items(): walk((r,), v, 0)
    return out

class Edge:
    __slots__ = ('a', 'b', 'd', 'up', 'span')

def shifted(st, x, y):
    """y is x shifted right, and x is not zero."""
    if x is None or y is None or x.w != y.w: return False
    try: bx, by = st.f.bits(x), st.f.bits(y)
    except Exception: return False
    for k in range(1, x.w):
        if list(by[:x.w - k]) == list(bx[k:]) and all(b == 0 for b in by[x.w - k:]):
            return st.f.truth(st.f.cmp('Eq', x, C(0, x.w, x.sg))) is False
    return False

def edge(E, a, g, b, s):
    """how the places of the two ends relate."""
    e = Edge(); e.a = a; e.b = b; e.span = E.span
    x, y = leaves(E, g), leaves(E, s)
    e.d = {}; e.up = {}
    for w in x:
        if w not in y: continue
        d = lin_add(y[w][0], x[w][0], -1)
        if d == (0, ()): e.d[w] = 0; continue
        lo, hi = s.f.lrange(d)
        if lo == hi == 0: e.d[w] = 0
        elif lo >= 1: e.d[w] = 1
        elif hi <= -1: e.d[w] = -1
        elif lo >= 0: e.d[w] = '>='
        elif hi <= 0: e.d[w] = '<='
        elif shifted(s, x[w][1], y[w][1]): e.d[w] = -1
    # what bounds the numbers that move
    inv = [w for w in y if e.d.get(w) == 0]
    for w, d in e.d.items():
        if d not in (1, -1): continue
        l, v = y[w]
        lo, hi = s.f.lrange(l)
        bs = set()
        if d == 1:
            if w[-1] != 'len' and hi <= LIMIT: bs.add('const')
            for o in inv:
                if s.f.lrange(lin_add(y[o][0], l, -1))[0] >= 0: bs.add(o)
        else:
            if v is None or not v.sg or lo >= -LIMIT or v.w <= 32: bs.add('const')
            for o in inv:
                if s.f.lrange(lin_add(l, y[o][0], -1))[0] >= 0: bs.add(o)
        e.up[w] = bs
    return e

def sccs(nodes, edges):
    """the cyclic components, each with its edges."""
    nxt = {}
    for e in edges: nxt.setdefault(e.a, set()).add(e.b)
    reach = {}
    for n in nxt:
        seen = set(); todo = [n]
        while todo:
            for m in nxt.get(todo.pop(), ()):
                if m not in seen: seen.add(m); todo.append(m)
        reach[n] = seen
    done = set()
    for n in nxt:
        if n in done or n not in reach[n]: continue
        c = {m for m in reach[n] if m in reach and n in reach[m]}
        done |= c
        yield c, [e for e in edges if e.a in c and e.b in c]

def well_founded(nodes, edges):
    """the edges of a cycle that nothing bounds, or None."""
    for c, es in sccs(nodes, edges):
        places = set(es[0].d)
        for e in es: places &= set(e.d)
        done = False
        for w in places:
            for dirn, ok in ((1, (0, 1, '>=')), (-1, (0, -1, '<='))):
                if not all(e.d[w] in ok for e in es): continue
                strict = [e for e in es if e.d[w] == dirn]
                if not strict: continue
                bs = None
                for e in strict: bs = set(e.up[w]) if bs is None else bs & e.up[w]
                if not any(b == 'const' or all(e.d.get(b) == 0 for e in es) for b in bs): continue
                rest = [e for e in es if e.d[w] != dirn]
                r = well_founded(c, rest)
                if r is None: done = True; break
            if done: break
        if not done: return es
    return None

def check(E):
    """E has just finished a run."""
    if not ON: return
    nodes = {}; graph = []
    for loc, info in E.heads.items():
        for i, g in enumerate(info.seen): nodes[(loc, i)] = g
    if not nodes: return
    keep = (E.exits, E.heads, E.pend, E.heap, E.steps, E.new_templates, E.span)
    cl = {k: (list(v) if v.__class__ is list else v) for k, v in vars(E.cl).items()}
    try:
        for nd, g in nodes.items():
            E.exits = []; E.pend = {}; E.heap = []; E.steps = 0
            s = g.fork(); s.g['@p'] = False
            base = g.fork()
            E.go(s)
            while E.heap:
                key = heapq.heappop(E.heap)
                sts = E.pend.pop(key, None)
                if not sts: continue
                f = sts[0].fr[-1]
                pos, heads, joins = E.P.cfg(f.k)
                for t in sts: E.gc(t)
                if f.bb in heads:
                    for t in sts: arrive(E, nodes, graph, nd, base, key[1], t)
                    continue
                for t in E.join_all(key[1], sts): E.go(t)
                if E.steps > E.MAX_STEPS: raise Stuck('analysis budget exhausted')
    finally:
        E.exits, E.heads, E.pend, E.heap, E.steps, E.new_templates, E.span = keep
        for k, v in cl.items(): setattr(E.cl, k, v)
    for k, n in (('loop_heads', len({n[0] for n in nodes})), ('loop_states', len(nodes)), ('loop_edges', len(graph)), ('cycles', sum(1 for _ in sccs(nodes, graph)))): STAT[k] = STAT.get(k, 0) + n
    bad = well_founded(set(nodes), graph)
    if bad is not None:
        e = bad[0]
        HANGS.append(('loop', 'a loop of %s may go round for ever: nothing it changes on the way is bounded, and no input is used up' % E.P.bodies[e.a[0][-1][0]]['path'], e.span))

def arrive(E, nodes, graph, nd, g, loc, t):
    p = t.g.pop('@p', False)
    if p: return
    to = [n for n in nodes if n[0] == loc and E.subsumed(t, nodes[n])]
    to = to[:1] or [n for n in nodes if n[0] == loc]
    for n in to: graph.append(edge(E, nd, g, n, t))
