"""All proof obligations, by rule family.  An obligation is (family, subject, side, function, args)."""
import progress
import codec, proto, schema, varint, errors, misc
from engine import Stuck
from events import short

class Ob:
    __slots__ = ('fam', 'subject', 'side', 'fn', 'args', 'feature')
    def __init__(self, fam, subject, side, fn, args, feature='full'):
        self.fam = fam; self.subject = subject; self.side = side; self.fn = fn; self.args = args; self.feature = feature
    @property
    def id(self): return '%s:%s:%s:%s' % (self.fam, self.subject, self.side, self.feature)

class Missing(Exception): pass
def missing(what):
    def f(P): return [('missing', what, None)], {}
    return f

def side_of(r):
    s = r.get('impl_trait') or r.get('key')
    return 'async' if 'Stream' in s or 'Async' in s else 'sync'

def codec_obs(P, feature):
    out = []
    for fam, pre, tab, w in (('codec-read', 'TInput', codec.READ, False), ('codec-write', 'TOutput', codec.WRITE, True)):
        for side in ('sync', 'async'):
            if side == 'async' and feature == 'none': continue
            st = 'Stream' if side == 'async' else ''
            trait = '::%s%sProtocol' % (pre, st)
            pat = '::TCompact%s%sProtocol<' % (pre[1:], st)
            for m, orc in tab.items():
                if side == 'sync' or m not in ('read_byte_',):
                    ks = [r['key'] for r in P.roots if r['name'] == m and (r.get('impl_trait') or '').split('<')[0].endswith(trait) and pat in r['key']]
                    if len(ks) != 1: out.append(Ob(fam, m, side, missing('the %s %s compact protocol has no single implementation of %s' % (side, 'output' if w else 'input', m)), (), feature)); continue
                    out.append(Ob(fam, m, side, run_codec, (ks[0], w, m), feature))
    return out
def run_codec(P, key, w, m):
    return codec.run_method(P, key, w, (codec.WRITE if w else codec.READ)[m])

def proto_obs(P, feature):
    out = []
    for side, trait in (('sync', 'TInputProtocol'), ('async', 'TInputStreamProtocol')):
        if side == 'async' and feature == 'none': continue
        for m in ('skip', 'skip_till_depth', 'read_list'):
            ks = [r['key'] for r in P.roots if r.get('in_trait') and r['name'] == m and r['path'].endswith('::%s::%s' % (trait, m))]
            # implementations that override the default are held to the same rule
            ks2 = [r['key'] for r in P.roots if r['name'] == m and (r.get('impl_trait') or '').split('<')[0].endswith('::' + trait) and 'boxed::Box<' not in r['key']]
            if len(ks) != 1: out.append(Ob('skip' if 'skip' in m else 'list', m, side, missing('no default method %s::%s' % (trait, m)), (), feature))
            for i, k in enumerate(ks + ks2):
                nm = m if i == 0 else m + '@override%d' % i
                if m == 'read_list': out.append(Ob('list', nm, side, proto.check_read_list, (k,), feature))
                else: out.append(Ob('skip', nm, side, proto.check_skip, (k, m), feature))
    return out
IN_REQ = set(codec.READ)
def box_obs(P, feature):
    out = []
    for trait, req in (('TInputProtocol', set(codec.READ)), ('TOutputProtocol', set(codec.WRITE)), ('TInputStreamProtocol', None), ('TOutputStreamProtocol', None)):
        rs = [r for r in P.roots if 'boxed::Box<' in r['key'].split(' as ')[0] and (r.get('impl_trait') or '').split('<')[0].endswith('::' + trait)]
        names = {r['name'] for r in rs}
        for m in sorted((req or set()) - names): out.append(Ob('box', '%s::%s' % (trait, m), 'sync', missing('%s is not implemented for boxes (%s)' % (trait, m)), (), feature))
        for r in rs: out.append(Ob('box', '%s::%s' % (trait, r['name']), 'async' if 'Stream' in trait else 'sync', proto.check_fwd, (r['key'], r['name']), feature))
    return out

FAMILIES = {'codec': codec_obs, 'proto': proto_obs, 'box': box_obs, 'schema': schema.obs, 'varint': varint.obs, 'errors': errors.obs, 'misc': misc.obs}

def run(P, ob):
    progress.HANGS.clear(); progress.STAT.clear()
    try: v, s = ob.fn(P, *ob.args)
    except Stuck as e: return [('stuck', str(e), None)], {}
    except RecursionError: return [('stuck', 'recursion limit of the analyser', None)], {}
    seen = set(); out = []
    for a, m, sp in list(v) + progress.HANGS:
        if (a, m) not in seen: seen.add((a, m)); out.append((a, m, sp))
    if progress.ON: s = dict(s); s.update(progress.STAT)
    return out, s
