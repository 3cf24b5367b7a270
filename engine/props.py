"""Which obligations decide which property.

Each entry: property -> selectors (builder, families or None, predicate on the subject, aspects of a violation that count).
'stuck' (the analysis cannot follow the code) and 'missing' (an anchor disappeared) always count: fail closed."""
import re
import schema
ALWAYS = {'stuck', 'missing'}
def aspects(*a): return set(a) | ALWAYS
PROPS = {}
def prop(id, *sel, features=('full', 'none'), floor=1): PROPS[id] = (sel, features, floor)

def base(s): return s.split('@')[0]
def any_(s): return True
def only(*n): return lambda s: base(s) in n
def kind(*k): return lambda s: base(s) in schema.SPEC and schema.SPEC[base(s)].kind in k
def but(p): return lambda s: not p(s)
BOOL_R = only('read_bool', 'read_field_begin', 'read_list_begin', 'read_set_begin', 'read_map_begin')
BOOL_W = only('write_bool', 'write_field_begin', 'write_field_stop', 'write_field_end', 'write_struct_end', 'write_list_begin', 'write_set_begin', 'write_map_begin')
MSG = only('read_message_begin', 'read_message_end', 'write_message_begin', 'write_message_end')
FIELD = only('read_struct_begin', 'read_struct_end', 'read_field_begin', 'read_field_end', 'write_struct_begin', 'write_struct_end', 'write_field_begin', 'write_field_end', 'write_field_stop')
SR = ('schema-read', 'schema-read-fn'); SW = ('schema-write',); SALL = SR + SW
FUNC = aspects('io', 'value', 'state', 'err-valid', 'panic', 'accept', 'unknown', 'required', 'schema')

prop('C01', ('codec', None, any_, FUNC), ('proto', ('list',), any_, FUNC), ('schema', SALL + ('enum-conv',), any_, FUNC), ('varint', None, any_, FUNC),
     ('misc', ('elem',), any_, FUNC), ('misc', ('equality',), lambda s: base(s) in schema.SPEC, FUNC), floor=500)
prop('C02', ('schema', SALL, any_, aspects('schema')), ('schema', SW, any_, aspects('schema', 'value', 'io')), ('schema', ('enum-table', 'enum-conv'), any_, aspects('value', 'panic')), floor=350)
prop('C03', ('codec', None, any_, aspects('io', 'after-failure', 'count', 'value', 'state', 'budget', 'alloc', 'err', 'err-io', 'err-valid', 'accept', 'swallow', 'panic', 'depth', 'order')),
     ('proto', None, any_, aspects('io', 'after-failure', 'value', 'state', 'budget', 'alloc', 'err', 'err-io', 'err-valid', 'accept', 'swallow', 'panic', 'depth', 'unknown')),
     ('schema', SALL, any_, aspects('io', 'after-failure', 'count', 'value', 'state', 'budget', 'alloc', 'err', 'err-io', 'err-valid', 'accept', 'swallow', 'panic', 'unknown', 'required', 'schema', 'order')),
     ('varint', ('varint-read', 'varint-write'), any_, aspects('io', 'after-failure', 'count', 'value', 'state', 'err', 'err-io', 'err-valid', 'accept', 'swallow', 'panic', 'alloc')),
     ('misc', ('elem', 'proto-new'), any_, aspects('io', 'value', 'state', 'budget', 'err-valid', 'swallow', 'panic', 'after-failure', 'err', 'err-io', 'alloc', 'accept')), features=('full',), floor=380)
prop('C04', ('codec', ('codec-read',), any_, aspects('panic', 'alloc')), ('proto', None, any_, aspects('panic', 'alloc')), ('schema', SR + ('enum-conv',), any_, aspects('panic', 'alloc')),
     ('varint', ('varint-read', 'varint'), any_, aspects('panic', 'alloc')), ('misc', ('elem',), any_, aspects('panic', 'alloc')), ('errors', None, any_, aspects('panic')), floor=320)
prop('C05', ('codec', ('codec-read',), any_, aspects('budget', 'alloc')), ('proto', None, any_, aspects('budget', 'alloc')), ('schema', SR, any_, aspects('budget', 'alloc')),
     ('varint', ('varint-read',), any_, aspects('alloc')), ('misc', ('elem',), any_, aspects('budget', 'alloc')), ('misc', ('proto-new',), any_, aspects('budget')),
     ('errors', ('errors',), lambda s: 'TryReserve' in s or 'TryFromInt' in s, aspects('err', 'value')), floor=280)
prop('C06', ('proto', ('skip',), any_, aspects('depth', 'io', 'panic')), ('misc', ('recursion',), any_, aspects('recursion', 'depth')), floor=6)
prop('C07', ('codec', ('codec-write',), any_, aspects('count')), ('schema', SW, any_, aspects('count')), ('varint', ('varint-write',), any_, aspects('count', 'value')),
     ('box', None, lambda s: s.startswith('TOutput'), aspects('value', 'io')), ('errors', ('apperr',), lambda s: 'write' in s, aspects('count')), floor=180)
prop('C08', ('codec', None, any_, aspects('swallow', 'after-failure', 'err-io')), ('proto', None, any_, aspects('swallow', 'after-failure', 'err-io')), ('schema', None, any_, aspects('swallow', 'after-failure', 'err-io')),
     ('varint', ('varint-read', 'varint-write'), any_, aspects('swallow', 'after-failure', 'err-io')), ('misc', ('elem',), any_, aspects('swallow', 'after-failure', 'err-io')),
     ('box', None, any_, aspects('swallow', 'after-failure', 'err')), ('errors', ('apperr',), any_, aspects('swallow', 'after-failure', 'err-io')), floor=460)
prop('C09', ('schema', SR, kind('struct'), aspects('required', 'value', 'err-valid', 'err', 'accept', 'io', 'state')), ('misc', ('elem',), any_, aspects('value', 'io')), floor=170)
prop('C10', ('proto', ('skip',), any_, aspects('io', 'value', 'state', 'err-valid', 'accept', 'unknown', 'err', 'depth')), ('schema', SR, kind('struct'), aspects('unknown', 'err-valid')),
     ('codec', ('codec-read',), any_, aspects('io', 'state')), floor=200)
prop('C11', ('schema', SALL, kind('union'), aspects('io', 'value', 'state', 'err-valid', 'accept', 'err', 'unknown', 'schema', 'required', 'panic')), floor=40)
prop('C12', ('schema', SALL + ('enum-conv',), kind('enum'), aspects('io', 'value', 'err-valid', 'accept', 'panic', 'count')), ('misc', ('equality',), kind('enum'), aspects('value', 'state')),
     ('codec', None, only('read_i32', 'write_i32'), aspects('io', 'value', 'accept', 'err-valid', 'panic')),
     ('varint', ('varint-read', 'varint-write', 'varint'), lambda s: 'i32' in s or 'u32' in s, aspects('io', 'value', 'accept', 'err-valid')), floor=60)
prop('C13', ('codec', None, any_, aspects('state')), ('codec', None, FIELD, aspects('state', 'io', 'value', 'err-valid', 'accept', 'panic')), ('schema', SALL, any_, aspects('state')), ('proto', ('skip',), any_, aspects('state', 'io')),
     ('misc', ('proto-new',), any_, aspects('state')), floor=360)
prop('C14', ('codec', None, lambda s: BOOL_R(s) or BOOL_W(s), aspects('io', 'value', 'state', 'err-valid', 'accept', 'panic')), ('misc', ('elem',), only('bool'), aspects('io', 'value')), ('misc', ('proto-new',), any_, aspects('state')), floor=30)
prop('C15', ('varint', None, any_, aspects('io', 'value', 'err-valid', 'accept', 'panic', 'err', 'state', 'count')), ('misc', ('encode-vec',), any_, aspects('value', 'panic', 'io')), floor=40)
prop('C16', ('codec', ('codec-read',), any_, aspects('io', 'swallow', 'err-io', 'accept')), ('proto', None, any_, aspects('io', 'swallow', 'err-io', 'accept')), ('schema', SR, any_, aspects('swallow', 'err-io')),
     ('varint', ('varint-read',), any_, aspects('io', 'swallow', 'err-io', 'accept', 'err')), ('misc', ('elem',), any_, aspects('io', 'swallow', 'err-io')), floor=280)
prop('C17', ('codec', ('codec-write',), any_, aspects('io', 'swallow', 'err-io')), ('varint', ('varint-write',), any_, aspects('io', 'swallow', 'err-io')), ('schema', SW, any_, aspects('io', 'swallow')),
     ('box', None, only('TOutputProtocol::flush'), aspects('io', 'value', 'swallow')), floor=170)
prop('C18', ('codec', None, any_, aspects('io', 'value', 'err-valid', 'err', 'accept', 'panic')), ('varint', None, any_, aspects('io', 'value', 'accept', 'err-valid')), floor=120)
prop('C19', ('box', None, any_, aspects('io', 'value', 'err', 'swallow', 'panic', 'after-failure')), floor=44)
prop('C20', ('errors', ('errors', 'verify', 'apperr'), any_, aspects('io', 'value', 'err', 'err-io', 'err-valid', 'accept', 'swallow', 'panic', 'state', 'after-failure')), ('codec', None, any_, aspects('err', 'err-io')),
     ('proto', None, any_, aspects('err', 'err-io')), ('schema', SALL, any_, aspects('err', 'err-io')), ('varint', ('varint-read', 'varint-write'), any_, aspects('err', 'err-io')), floor=460)
prop('C21', ('misc', ('unsafe', 'send'), any_, aspects('unsafe', 'send')), floor=3)
prop('C22', ('codec', None, MSG, aspects('io', 'value', 'state', 'err-valid', 'err', 'accept', 'panic')), ('errors', ('msgtype',), any_, aspects('value', 'err', 'accept', 'err-valid', 'panic')),
     ('misc', ('ident',), only('TMessageIdentifier'), aspects('value', 'state', 'panic')), floor=10)
prop('C26', ('misc', ('ctor', 'ident'), any_, aspects('value', 'panic', 'state')), ('misc', ('proto-new',), any_, aspects('value', 'state', 'budget', 'panic')), floor=50)
prop('C27', ('misc', ('equality', 'clone', 'ordering', 'hash'), any_, aspects('value', 'state', 'panic')), floor=250)
prop('C28', ('misc', ('seek',), any_, aspects('io', 'value', 'state', 'panic')), floor=1)
prop('C30', ('codec', None, any_, aspects('loop')), ('proto', None, any_, aspects('loop')), ('schema', SALL + ('enum-conv',), any_, aspects('loop')), ('varint', None, any_, aspects('loop')),
     ('misc', ('elem', 'encode-vec'), any_, aspects('loop')), ('misc', ('recursion',), any_, aspects('recursion')), ('errors', ('apperr',), any_, aspects('loop')), floor=480)
prop('C31', ('misc', ('feature',), any_, aspects('feature')), floor=1)
prop('C32', ('misc', ('effects',), any_, aspects('ambient')), floor=4)
prop('C29', ('misc', ('format',), any_, aspects('value', 'swallow', 'panic')), floor=80)

# ---- relations between obligations --------------------------------------------------------------
def both_sides(recs, wanted, results, obs):
    """C01: a member that all four functions of a type agree on, though not with the published schema, still round-trips (C02 reports it)."""
    four = {}
    for r in recs:
        if r['aspect'] == 'schema': four.setdefault(r['subject'], set()).add((r['family'], r['side']))
    ok = {s for s, x in four.items() if len({(f[:10], d) for f, d in x if f in ('schema-read-fn', 'schema-write')}) == 4}
    return [r for r in recs if not (r['aspect'] == 'schema' and r['subject'] in ok)]
def norm_subject(s): return s.split('@')[0].replace('_async', '')
def norm_msg(m):
    m = re.sub(r'_\d+', '_', str(m))
    for a, b in (('stream_from_in_protocol', 'read_from_in_protocol'), ('write_to_out_stream_protocol', 'write_to_out_protocol'), ('_async', ''), ('Async', ''), ('Stream', ''), ('async ', '')): m = m.replace(a, b)
    return m
def disagree(recs, wanted, results, obs):
    """C03: both sides are held to one specification; a deviation that only one side has is a disagreement."""
    paired = {}
    for o, a in wanted.values(): paired.setdefault((o.fam, norm_subject(o.subject)), set()).add(o.side)
    by = {}
    for r in recs: by.setdefault((r['family'], norm_subject(r['subject']), r['aspect'], norm_msg(r['msg'])), set()).add(r['side'])
    out = []
    for r in recs:
        if r['aspect'] in ALWAYS: out.append(r); continue
        sides = by[(r['family'], norm_subject(r['subject']), r['aspect'], norm_msg(r['msg']))]
        if len(sides) == 1 and (len(paired.get((r['family'], norm_subject(r['subject'])), ())) == 2 or r['family'] == 'proto-new'): out.append(r)
    # where the specification leaves the order of checks open, both sides must use the same one
    orders = {}
    for i, v, s in results:
        o = obs[i]
        if s.get('orders'): orders.setdefault((o.fam, o.subject), {})[o.side] = (set(s['orders']), o)
    for k, x in sorted(orders.items()):
        if len(x) == 2 and not x['sync'][0] & x['async'][0]:
            out.append({'family': k[0], 'subject': k[1], 'side': 'async', 'feature': 'full', 'aspect': 'err', 'msg': 'checks the value in another order than its sibling: an input with two faults gives different errors', 'span': None})
    return out
CROSS = {'C01': both_sides, 'C03': disagree}

# ---- what is said about each check ----------------------------------------------------------------
ASSUME = [
 'the compiler front end (type checking, trait resolution, MIR construction) is correct',
 'models of std items the crate calls (Vec, String, Option/Result adaptors, integer methods, Read/Write/AsyncRead/AsyncWrite contracts, TryReserve) match their documentation',
 'a transport obeys its trait contract (a read returns at most what was asked for; an error transfers nothing that is relied on)',
 'collections written have fewer than 2^32 elements and totals returned by writers stay below 2^60',
]
EXPLAIN = {
 'C01': 'Writers and readers of all types are each held to one common specification of bytes per value (schema layer: protocol operations per member; codec layer: bytes per operation; varint layer: bits per integer), in both directions, so that read(write(v)) = v follows by composition.',
 'C02': 'The ids, wire types, optionality and union members used by the four generated functions of every type, and every enum constant, are compared with a transcription of the published parquet.thrift (spec/parquet.idl).',
 'C03': 'Every synchronous function and its asynchronous sibling are held to the same specification; a deviation on exactly one side is reported.',
 'C04': 'Every assert, overflow check, index, unwrap/expect, panic call and infallible reservation on any path of the readers, skip, list reader, varint decoding and error conversions must be unreachable.',
 'C05': 'Along every path, each reservation sized by input is preceded by the subtraction of that length from the budget, refusal leads to a size-limit error, and no path increases the budget.',
 'C06': 'The only cycle in the call graph goes through the skip function, whose every recursive call passes a smaller depth and which rejects depth 0; no type contains itself.',
 'C07': 'The value returned by every writer is shown equal to the symbolic sum of what it gave the transport or got from the writers it called.',
 'C08': 'After any modelled operation fails, the path performs no further operation and returns an error that carries the failure.',
 'C09': 'For every structure reader, the presence of every member is tracked through the field loop; success requires all required members, and each member of the result must be the value last read for its id or None.',
 'C10': 'skip is held to the grammar of every wire type, and every structure reader must pass unknown ids with their own wire type to it and continue.',
 'C11': 'The number of fields received (0, 1, several) and the first member are tracked through every union reader; union writers write exactly their active member.',
 'C12': 'Enum readers, writers and conversions must be the identity on the number for every 32-bit number.',
 'C13': 'The field-id state of the protocols is tracked through each operation (delta or absolute id relative to the last id; push and pop), and begin/end calls must nest on every path of readers, writers and skip.',
 'C14': 'The pending boolean is tracked through every operation of the codec; a boolean field is one header byte, a boolean element one byte.',
 'C15': 'Encoding and decoding functions are executed abstractly on symbolic bit vectors per length class: each output bit must be the specified input bit.',
 'C16': 'Every read from the transport is an exact read (or a length-checked one); end of input leads to an end-of-file error and nothing outside the value is consumed.',
 'C17': 'Every byte goes to the transport by an all-or-error write on every path; flush reaches the transport.',
 'C18': 'The bytes of each protocol operation are compared with the compact protocol specification on every path, symbolically in ids, sizes, values and types.',
 'C19': 'Every operation of a boxed protocol calls the same operation of the content once with the same arguments and returns its result.',
 'C20': 'Conversions between error types are computed abstractly for every kind and number, and every error an operation reports for a known cause must have the documented class.',
 'C21': 'unsafe blocks, functions and impls of the crate are counted (also in unexpanded sources); Send is decided by the trait solver for every future of a public async function and for all value types.',
 'C22': 'message_begin/end of both directions follow the compact envelope; protocol id, version and type are checked; type codes and the identifier constructor are total and exact.',
 'C26': 'Each constructor, executed abstractly on symbolic arguments, must return exactly the argument of the same position in each member (unspecified members None), and new protocols start in the empty state with the given budget.',
 'C27': 'Every comparison, ordering, hash and clone function of every value type is executed abstractly on two symbolic values (unions: per pair of variants); each result must be what the relations of the declared members say.',
 'C28': 'The seek function of the input protocol is executed abstractly: it must seek the transport once, to the same position, return its result and leave the other members of the protocol alone.',
 'C30': 'Every loop head of every reader, writer, skip and varint function, with each invariant found for it, is a node; the paths between them are edges. Every cycle of edges on which no byte of input is taken must have a bounded number or window that strictly moves towards its bound (lexicographically, per component). The only recursion is the depth-limited one of skip.',
 'C29': 'Every Debug and Display function is executed abstractly; what each path hands to the formatter is collected. Debug must hand over every member, Display different texts for different kinds (and the content of a wrapped error); no path panics, and the result is a failure exactly when the formatter failed.',
}
RULE = {k: 'obligations whose violations count: ' + '; '.join('%s%s: %s' % (b, '' if f is None else '(%s)' % ', '.join(f), ', '.join(sorted(a))) for b, f, p, a in v[0]) for k, v in PROPS.items()}
TECH = {
 'C01': 'abstract interpretation of MIR: writers and readers against one common specification',
 'C02': 'abstract interpretation of MIR: member table extraction compared with the published IDL; constant evaluation',
 'C03': 'abstract interpretation of MIR: sibling cross-check against one specification',
 'C04': 'abstract interpretation of MIR: unreachability of every panic site and infallible reservation',
 'C05': 'abstract interpretation of MIR: charge-before-reserve typestate',
 'C06': 'call-graph recursion analysis, type-containment analysis and depth-argument dataflow',
 'C07': 'abstract interpretation of MIR: symbolic linear sums',
 'C08': 'abstract interpretation of MIR: error-propagation typestate',
 'C09': 'abstract interpretation of MIR: per-member presence dataflow',
 'C10': 'abstract interpretation of MIR: grammar of skip, unknown-id dispatch',
 'C11': 'abstract interpretation of MIR: field-count typestate',
 'C12': 'abstract interpretation of MIR: identity of numbers',
 'C13': 'abstract interpretation of MIR: field-id stack typestate',
 'C14': 'abstract interpretation of MIR: pending-boolean typestate',
 'C15': 'abstract interpretation of MIR on symbolic bit vectors',
 'C16': 'abstract interpretation of MIR: exact-read discipline',
 'C17': 'abstract interpretation of MIR: complete-write discipline',
 'C18': 'abstract interpretation of MIR: symbolic byte layouts against the specification',
 'C19': 'abstract interpretation of MIR: forwarding rule',
 'C20': 'abstract interpretation of MIR: error classification tables',
 'C21': 'type-checker queries (unsafe, Send/Sync/Clone/Eq markers)',
 'C22': 'abstract interpretation of MIR: message envelope layout and code tables',
 'C26': 'abstract interpretation of MIR: constructors on symbolic arguments',
 'C27': 'abstract interpretation of MIR: member-by-member comparison, cloning and hashing',
 'C28': 'abstract interpretation of MIR: forwarding rule',
 'C30': 'abstract interpretation of MIR: ranking of every loop, recursion analysis',
 'C31': 'item-by-item comparison of the type-checked MIR of both feature sets',
 'C32': 'effect analysis: every call of the type-checked MIR, every static',
 'C29': 'abstract interpretation of MIR: what reaches the formatter on every path',
}
NOTE = {
 'C01': 'Decided by composition: both directions of every layer are shown to follow one specification for all values; the composition itself is an argument in DESIGN.md, not a mechanised proof.',
 'C21': 'Send is asked of the compiler\'s own trait solver, so it is exact for the crate\'s code; the claim covers generic protocols through their bounds.',
 'C31': 'Exact up to the compiler front end: the two builds are compared as MIR. Code that differs in text but not in behaviour between the builds would be reported.',
 'C32': 'Sound for calls the crate makes itself; core and alloc are taken to be free of ambient effects, transports and formatters supplied by the caller do what they do.',
 'C06': 'Stack use is bounded by the depth limit and the absence of other recursion; frame sizes are not measured.',
}
NOTE_DEFAULT = 'Sound over all paths of the analysed functions under the stated assumptions (std and transport models, compiler front end); no execution.'
NA = {
 'C23': 'false of this design and not decidable as a shape of the code: a dropped future loses bytes already consumed by the transport; no structural clause here is a necessary condition of a guarantee the crate makes',
 'C24': 'the budget counts memory-bearing lengths only by design (fixed-size reads are free), so the property as stated is a quantity over run histories that the code does not maintain; the charging discipline itself is decided under C05',
 'C25': 'peak heap use is a runtime quantity (allocator behaviour, element sizes, growth policy) no sound static argument in reach bounds; the structural clause (charge before fallible reservation) is decided under C05',
}
