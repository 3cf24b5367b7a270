"""Path-partitioned client: every event is recorded in a ghost trace (used for small, mostly loop-free code)."""
from engine import *
import models

class Summary(Client):
    max_states = 4000
    def __init__(self): self.notes = []
    def partition(self, E, st): return st.g['tr']
    def names(self, name): return name[0].split('::')[-1] + '.' + name[1]
    def value(self, E, st, v):
        """argument of an event, as recorded: references are resolved to what they denote."""
        if v.__class__ is Ref:
            if v.m is not None: return ('slice', E.term(models.whole(E, st, v)))
            x = E.read(st, (v.r, v.p))
            if v.r[0] == 'X' and v.r not in st.mem: return ('&', E.term(x))
            return ('&', x if x.__class__ in (Int, Agg) else E.term(x))
        return v
    def effect(self, E, st, name, args, rty):
        n = self.names(name)
        i = len(st.g['tr'])
        rec = (n,) + tuple(self.value(E, st, a) for a in args[1:])
        st.g['tr'] = st.g['tr'] + (rec,)
        t = E.T[rty]
        if t['k'] == 'adt' and t['path'] == 'core::result::Result':
            s2 = st.fork()
            s2.g['tr'] = s2.g['tr'] + (('fail',),)
            okv = E.mk(E.payload_ty(rty, 'Ok'), ('ev', i, n))
            self.post(E, st, n, args, okv)
            return [(st, E.ok(rty, okv)), (s2, E.err(rty, E.mk(E.payload_ty(rty, 'Err'), ('everr', i))))]
        return [(st, E.mk(rty, ('ev', i, n)))]
    def post(self, E, st, n, args, okv): pass
    def opaque_tracked(self, E, r): return True
