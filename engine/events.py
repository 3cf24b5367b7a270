"""Shared base of the rules that treat protocol operations as events."""
from domain import Int, C, TRUE, FALSE, mksym
from engine import Agg, Opq, Ref, Seq, Fut, FnV, Stuck, UNIT, Client, Engine, tstr
import models
from codec import from_src

IN_OPS = {'read_message_begin', 'read_message_end', 'read_struct_begin', 'read_struct_end', 'read_field_begin', 'read_field_end',
          'read_bool', 'read_bytes', 'read_i8', 'read_i16', 'read_i32', 'read_i64', 'read_double', 'read_string', 'read_list_begin',
          'read_list_end', 'read_set_begin', 'read_set_end', 'read_map_begin', 'read_map_end', 'read_byte', 'read_list', 'skip', 'skip_till_depth'}
OUT_OPS = {'write_message_begin', 'write_message_end', 'write_struct_begin', 'write_struct_end', 'write_field_begin', 'write_field_end',
           'write_field_stop', 'write_bool', 'write_bytes', 'write_i8', 'write_i16', 'write_i32', 'write_i64', 'write_double', 'write_string',
           'write_list_begin', 'write_list_end', 'write_set_begin', 'write_set_end', 'write_map_begin', 'write_map_end', 'flush', 'write_byte'}
PROTO = {'TInputProtocol': IN_OPS, 'TInputStreamProtocol': IN_OPS, 'TOutputProtocol': OUT_OPS, 'TOutputStreamProtocol': OUT_OPS,
         'ReadThrift': {'read_from_in_protocol'}, 'AsyncReadThrift': {'stream_from_in_protocol'}}
# operations that take at least a byte of the input when they succeed (the codec obligations)
CONSUMES = {'read_message_begin', 'read_field_begin', 'read_bytes', 'read_i8', 'read_i16', 'read_i32', 'read_i64', 'read_double', 'read_string',
            'read_list_begin', 'read_set_begin', 'read_map_begin', 'read_byte', 'read_list', 'read_from_in_protocol', 'stream_from_in_protocol'}
def short(p): return p.split('::')[-1].split('<')[0].rstrip('>')

def self_ref(E, v):
    while v.__class__ is Agg and len(v.f) == 1: v = v.f[0]
    return v

class EventClient(Client):
    """ghost 'fail': the error of the operation that failed, once one has."""
    def __init__(self):
        self.viol = []; self.notes = []; self.nev = 0
    def reset(self, E): self.viol = []; self.notes = []; self.nev = 0
    def bad(self, E, st, aspect, msg):
        x = (aspect, msg, E.span)
        if x not in self.viol: self.viol.append(x)
        return []
    def event_path(self, E, st, c, a, rty):
        tr = c.get('trait')
        if not c.get('trait_local'): return None
        ops = PROTO.get(short(tr))
        m = c.get('m')
        if ops is None or m in ops: return None
        # a default method the specification does not know: look inside
        k = default_body(E.P, tr, m)
        if k is None: raise Stuck('unknown operation %s of %s' % (m, tr))
        E.push_frame(st, k, list(a), E.cur[0], E.cur[1], None, rty)
        return [(st, ('succ', [(st, False, False)]))]
    def intercept(self, E, st, c, args, rty):
        src = from_src(c)
        if src is not None: return Opq(rty, ('from', src, E.term(args[0])))
        return None
    def step(self, E, st, tr, m, self_ty, args, rty): raise NotImplementedError
    def effect(self, E, st, name, args, rty):
        tr, m = short(name[0]), name[1]
        if tr not in PROTO: raise Stuck('unmodelled operation %s::%s' % (name[0], m))
        self.nev += 1
        if st.g.get('fail') is not None:
            return self.bad(E, st, 'after-failure', '%s is called after an operation has already failed' % m)
        if '@p' in st.g and m in CONSUMES: st.g['@p'] = True
        return self.step(E, st, tr, m, name[2] if len(name) > 2 else None, args, rty)
    def failed(self, E, st, rty, what):
        """the branch on which this operation fails."""
        s = st.fork()
        i = E.fresh(s, ('ev', 'err'))
        t = ('everr', i)
        s.g['fail'] = t; s.g['failop'] = what
        return (s, E.err(rty, Opq(E.payload_ty(rty, 'Err'), t)))

def default_body(P, trait, m):
    pre = '%s::%s<' % (trait, m)
    ks = [k for k in P.bodies if k.startswith(pre)]
    return ks[0] if len(ks) == 1 else None

def err_payload(E, ex):
    v = ex.val
    if v.__class__ is Agg and v.ty is not None and E.T[v.ty].get('path') == 'core::result::Result':
        n = E.T[v.ty]['v'][v.v]['n']
        return n, (v.f[0] if v.f else UNIT)
    return None, v
