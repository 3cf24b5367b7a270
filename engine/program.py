"""The program under analysis: bodies, types and derived control-flow facts (from the MIR dump)."""
import json

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.T = d['types']
        self.bodies = d['bodies']
        self.roots = d['roots']
        self.consts = {c[0]: c for c in d['consts']}
        self._wto = {}
        self.drop_impls = [i['self'] for i in d['impls'] if i['trait'].endswith('ops::drop::Drop')]
        self.by_path = {}
        for k, b in self.bodies.items():
            if 'path' in b: self.by_path.setdefault(b['path'], []).append(k)
        self.adts = {a['path']: a for a in d['adts']}

    def ts(self, t): return self.T[t]['s'] if t is not None else '?'

    def cfg(self, key):
        """(weak topological position, loop heads, end position of each loop head, join blocks)"""
        r = self._wto.get(key)
        if r is None: r = self._wto[key] = self._cfg(key)
        return r

    def succs(self, b):
        t = b[1]
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop': return [t[1]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]]
        if k == 'yield': return [t[1]]
        return []

    def _cfg(self, key):
        bl = self.bodies[key]['blocks']
        n = len(bl)
        suc = [self.succs(b) if b else [] for b in bl]
        # reachable, skipping resume edges of yields (a poll is analysed as completing)
        for i, b in enumerate(bl):
            if b and b[1][0] == 'yield': suc[i] = []
        preds = [0] * n
        seen = {0}; st = [0]
        while st:
            x = st.pop()
            for y in suc[x]:
                preds[y] += 1
                if y not in seen: seen.add(y); st.append(y)
        # Bourdoncle weak topological order (iterative over components)
        INF = 1 << 60
        dfn = [0] * n; num = [0]; stack = []
        out = []
        import sys
        sys.setrecursionlimit(100000)
        def component(v):
            part = []
            for s in suc[v]:
                if dfn[s] == 0: visit(s, part)
            part.insert(0, ('c', v)) if False else None
            return [v] + [part[::-1]] if False else (v, part[::-1])
        def visit(v, part):
            stack.append(v)
            num[0] += 1; dfn[v] = num[0]; head = dfn[v]; loop = False
            for s in suc[v]:
                m = visit(s, part) if dfn[s] == 0 else dfn[s]
                if m <= head: head = m; loop = True
            if head == dfn[v]:
                dfn[v] = INF
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    part.append(component(v))
                else: part.append(v)
            return head
        top = []
        visit(0, top)
        pos = {}; heads = {}; cnt = [0]
        def lay(part):
            for x in part:
                if isinstance(x, tuple):
                    v, sub = x
                    pos[v] = cnt[0]; cnt[0] += 1
                    lay(sub)
                    heads[v] = cnt[0] - 1 + 0.5
                else:
                    pos[x] = cnt[0]; cnt[0] += 1
        lay(top[::-1])
        joins = {i for i in range(n) if preds[i] >= 2 or i in heads}
        return pos, heads, joins

    def place_ty(self, body, p):
        t = body['locals'][p[0]]
        for e in p[1:]:
            if e == '*':
                x = self.T[t]
                if x['k'] in ('ref', 'ptr'): t = x['e']
                elif x['k'] == 'adt' and x['path'] == 'alloc::boxed::Box': t = x['args'][0]
                else: return None
            elif e[0] == 'f': t = e[2]
            elif e[0] in ('i', 'ci'): t = self.T[t]['e'] if 'e' in self.T[t] else None
        return t
