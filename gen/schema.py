"""The one schema table.  Generates: .proto files, TLA+ schema module, C++ dump/build code.

Value representation (shared by spec, driver and generators):
  scalar  -> little endian byte list (bool 1, 32-bit 4, 64-bit 8 bytes), string/bytes -> byte list
  message -> [slot, slot, ..., unknown bytes]   one slot per field / oneof, in schema order
  slot    -> implicit/required: value | optional: [] or [v] | repeated: [v..] | map: [[k,v]..]
             oneof: [] or [alt, v]   (alt = 1-based member position)
"""
VAR = {'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'enum'}
W32 = {'fixed32', 'sfixed32', 'float'}
W64 = {'fixed64', 'sfixed64', 'double'}
SIZE = dict(int32=4, int64=8, uint32=4, uint64=8, sint32=4, sint64=8, bool=1, enum=4, fixed32=4, sfixed32=4,
            float=4, fixed64=8, sfixed64=8, double=8)
CPPT = dict(int32='int32_t', int64='int64_t', uint32='uint32_t', uint64='uint64_t', sint32='int32_t', sint64='int64_t',
            bool='bool', fixed32='uint32_t', sfixed32='int32_t', float='float', fixed64='uint64_t', sfixed64='int64_t',
            double='double')


class F:
    def __init__(s, name, num, type, card, packed=None, default=None, opts=None, decl=None, delim=False):
        s.name, s.num, s.type, s.card = name, num, type, card
        s.sub = None      # message / enum type name
        if ':' in type:
            s.type, s.sub = type.split(':')
        s.packed = packed            # True/False for repeated scalar
        s.default = default          # (proto text, byte list)
        s.opts = opts or []
        s.delim = delim
        s.decl = decl                # full declaration override
        s.key = s.val = None         # map
        s.alts = None                # oneof members
        s.cname = name

    def scalar(s):
        return s.type in SIZE


def Map(name, num, k, v, **kw):
    f = F(name, num, 'map', 'map', **kw)
    f.key = F('key', 1, k, 'implicit')
    f.val = F('value', 2, v, 'optional' if v.startswith('msg:') else 'implicit')
    return f


def Oneof(name, alts):
    f = F(name, 0, 'oneof', 'oneof')
    for a in alts:
        a.card = 'oneof'
    f.alts = alts
    return f


class M:
    def __init__(s, name, fields, file, nested_in=None, cpp=None, decl=True):
        s.name, s.fields, s.file = name, fields, file
        s.cpp = cpp or name          # C++ name with :: (without package)
        s.decl = decl                # emit a top-level declaration
        s.full = 'vt.' + s.cpp.replace('::', '.')


class E:
    def __init__(s, name, vals, file, closed):
        s.name, s.vals, s.file, s.closed = name, vals, file, closed


ALL = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'sfixed32', 'float', 'fixed64', 'sfixed64',
       'double', 'bool', 'string', 'bytes']
le = lambda v, n: list((v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
b = lambda s: list(s if isinstance(s, bytes) else s.encode())
import re, struct
f32 = lambda x: list(struct.pack('<f', x))
f64 = lambda x: list(struct.pack('<d', x))

NUMS = [1, 2, 15, 16, 17, 2047, 2048, 262143, 262144, 1000, 33554431, 33554432, 100, 536870911, 5]
E3 = E('E3', [('E3_ZERO', 0), ('E3_ONE', 1), ('E3_NEG', -1), ('E3_BIG', 2147483647)], 'vt3', False)
C2 = E('C2', [('C2_A', 1), ('C2_B', 2), ('C2_N', -5), ('C2_BIG', 2147483647)], 'vt2', True)
CE = E('CE', [('CE_A', 0), ('CE_B', 7)], 'vte', True)
CG = E('CG', [('CG_%s' % str(i).replace('-', 'N'), i) for i in range(-2, 4)], 'vt2', True)   # continuous range
CM = E('CM', [('CM_Z', 0), ('CM_T', 3)], 'vt2', True)
enums = {e.name: e for e in (E3, C2, CE, CG, CM)}

D2 = {'int32': ('-7', le(-7, 4)), 'int64': ('-9223372036854775808', le(-2**63, 8)), 'uint32': ('4294967295', le(-1, 4)),
      'uint64': ('18446744073709551615', le(-1, 8)), 'sint32': ('-2147483648', le(-2**31, 4)), 'sint64': ('-5', le(-5, 8)),
      'fixed32': ('305419896', le(305419896, 4)), 'sfixed32': ('-2', le(-2, 4)), 'float': ('1.5', f32(1.5)),
      'fixed64': ('1', le(1, 8)), 'sfixed64': ('-1', le(-1, 8)), 'double': ('-0.25', f64(-0.25)), 'bool': ('true', [1]),
      'string': ('"hi\\tyou"', b('hi\tyou')), 'bytes': ('"a\\001\\377\\"b"', [97, 1, 255, 34, 98])}

msgs = [
    # ---- proto3
    M('L3', [F('a', 1, 'int32', 'implicit'), F('s', 2, 'string', 'implicit'), F('r', 3, 'sint32', 'repeated', True)], 'vt3'),
    M('S3', [F('f_' + t, n, t, 'implicit') for t, n in zip(ALL, NUMS)] + [F('f_enum', 7, 'enum:E3', 'implicit'),
                                                                     F('f_msg', 8, 'msg:L3', 'optional')], 'vt3'),
    M('O3', [F('o_' + t, i + 1, t, 'optional') for i, t in enumerate(ALL)] + [F('o_enum', 16, 'enum:E3', 'optional')], 'vt3'),
    M('R3', [F('r_' + t, i + 1, t, 'repeated', True if t not in ('string', 'bytes') else None) for i, t in enumerate(ALL)] +
      [F('r_enum', 16, 'enum:E3', 'repeated', True), F('r_msg', 17, 'msg:L3', 'repeated'),
       F('u_int32', 18, 'int32', 'repeated', False), F('u_double', 19, 'double', 'repeated', False),
       F('u_bool', 20, 'bool', 'repeated', False)], 'vt3'),
    M('N3', [F('v', 1, 'int32', 'implicit'), F('child', 2, 'msg:N3', 'optional'), F('kids', 3, 'msg:N3', 'repeated'),
             Map('m', 4, 'int32', 'msg:N3')], 'vt3'),
    M('U3', [Oneof('o', [F('i', 1, 'int32', ''), F('s', 2, 'string', ''), F('b', 3, 'bytes', ''), F('m', 4, 'msg:L3', ''),
                         F('e', 5, 'enum:E3', ''), F('z', 6, 'bool', ''), F('d', 7, 'double', ''), F('n', 20, 'msg:N3', '')]),
             F('after', 9, 'int32', 'implicit'),
             Oneof('p', [F('x', 10, 'sint64', ''), F('y', 11, 'fixed32', '')])], 'vt3'),
    M('M3', [Map('ii', 1, 'int32', 'int32'), Map('ss', 2, 'string', 'string'), Map('zb', 3, 'bool', 'bytes'),
             Map('ld', 4, 'sint64', 'double'), Map('fm', 5, 'fixed32', 'msg:L3'), Map('ue', 6, 'uint64', 'enum:E3'),
             Map('sn', 7, 'string', 'msg:N3'), Map('xf', 8, 'sfixed64', 'sfixed32'), Map('iz', 9, 'sint32', 'bool'),
             F('tail', 15, 'int32', 'implicit')], 'vt3'),
    # ---- proto2
    M('L2', [F('a', 1, 'int32', 'optional'), F('s', 2, 'string', 'optional'), F('c', 3, 'enum:C2', 'repeated', False)], 'vt2'),
    M('S2', [F('d_' + t, i + 1, t, 'optional', default=D2[t]) for i, t in enumerate(ALL)] +
      [F('d_enum', 16, 'enum:C2', 'optional', default=('C2_N', le(-5, 4))), F('n_int32', 17, 'int32', 'optional'),
       F('n_string', 18, 'string', 'optional'), F('n_enum', 19, 'enum:C2', 'optional'),
       F('n_cg', 21, 'enum:CG', 'optional'), F('n_msg', 20, 'msg:L2', 'optional')], 'vt2'),
    M('R2', [F('r_' + t, i + 1, t, 'repeated', False if t not in ('string', 'bytes') else None) for i, t in enumerate(ALL)] +
      [F('r_enum', 16, 'enum:C2', 'repeated', False), F('p_enum', 17, 'enum:C2', 'repeated', True),
       F('p_int64', 18, 'int64', 'repeated', True), F('p_fixed32', 19, 'fixed32', 'repeated', True),
       F('p_cg', 22, 'enum:CG', 'repeated', True),
       F('g', 20, 'group:GR', 'repeated'), F('tail', 21, 'int32', 'optional')], 'vt2'),
    M('GR', [F('a', 1, 'int32', 'optional'), F('rr', 2, 'bytes', 'repeated')], 'vt2', cpp='R2::G', decl=False),
    M('G2', [F('gx', 1, 'group:GX', 'optional'), F('gy', 100, 'group:GY', 'repeated'), F('rec', 3, 'msg:G2', 'optional')], 'vt2'),
    M('GX', [F('a', 1, 'int32', 'optional'), F('gz', 2, 'group:GZ', 'optional'), F('l', 3, 'msg:L2', 'optional')], 'vt2', cpp='G2::Gx', decl=False),
    M('GZ', [F('b', 1, 'bytes', 'optional')], 'vt2', cpp='G2::Gx::Gz', decl=False),
    M('GY', [F('c', 1, 'enum:C2', 'optional'), F('s', 2, 'string', 'optional')], 'vt2', cpp='G2::Gy', decl=False),
    M('Q2', [F('i', 1, 'int32', 'required'), F('s', 2, 'string', 'required'), F('l', 3, 'msg:L2', 'required'),
             F('e', 4, 'enum:C2', 'required'), F('d', 5, 'int32', 'required', default=('9', le(9, 4)))], 'vt2'),
    M('U2', [Oneof('o', [F('c', 1, 'enum:C2', ''), F('i', 2, 'int32', ''), F('gg', 3, 'group:UG', ''), F('s', 4, 'string', ''),
                         F('l', 5, 'msg:L2', '')]),
             F('tail', 6, 'int32', 'optional')], 'vt2'),
    M('UG', [F('a', 1, 'int32', 'optional')], 'vt2', cpp='U2::Gg', decl=False),
    M('M2', [Map('ic', 1, 'int32', 'enum:CM'), Map('sl', 2, 'string', 'msg:L2'), F('tail', 3, 'int32', 'optional')], 'vt2'),
    # ---- edition 2023
    M('LE', [F('a', 1, 'int32', 'optional'), F('z', 2, 'sint64', 'repeated', True)], 'vte'),
    M('EE', [F('x_i', 1, 'int32', 'optional'), F('i_i', 2, 'int32', 'implicit', opts=['features.field_presence = IMPLICIT']),
             F('i_s', 3, 'string', 'implicit', opts=['features.field_presence = IMPLICIT', 'features.utf8_validation = NONE']),
             F('q_i', 4, 'int32', 'required', opts=['features.field_presence = LEGACY_REQUIRED']),
             F('p_i', 5, 'int32', 'repeated', True), F('e_i', 6, 'int32', 'repeated', False, opts=['features.repeated_field_encoding = EXPANDED']),
             F('d_m', 7, 'group:LE', 'optional', delim=True, opts=['features.message_encoding = DELIMITED']),
             F('d_r', 8, 'group:LE', 'repeated', delim=True, opts=['features.message_encoding = DELIMITED']),
             F('l_m', 9, 'msg:LE', 'optional'), F('c_e', 10, 'enum:CE', 'optional'), F('o_e', 11, 'enum:OE', 'optional'),
             F('c_p', 12, 'enum:CE', 'repeated', True), F('df', 13, 'int32', 'optional', default=('77', le(77, 4))),
             Oneof('w', [F('w_d', 14, 'group:LE', '', delim=True, opts=['features.message_encoding = DELIMITED']),
                         F('w_s', 15, 'string', ''), F('w_c', 16, 'enum:CE', '')]),
             Map('me', 17, 'int32', 'msg:LE')], 'vte'),
]
enums['OE'] = E('OE', [('OE_A', 0), ('OE_B', 3)], 'vte', False)
M_ = {m.name: m for m in msgs}
# message types per translation unit (parallel compilation)
GROUPS = {1: ['S3', 'O3'], 2: ['R3', 'L3', 'N3'], 3: ['U3', 'M3'], 4: ['S2', 'L2'], 5: ['R2', 'G2', 'Q2'], 6: ['U2', 'M2', 'LE', 'EE']}
ORDER = [m.name for m in msgs]


# ------------------------------------------------------------------ .proto
def proto_files():
    out = {}
    hdr = {'vt3': 'syntax = "proto3";\npackage vt;\n', 'vt2': 'syntax = "proto2";\npackage vt;\n',
           'vte': 'edition = "2023";\npackage vt;\n'}
    for fn in hdr:
        s = hdr[fn]
        for e in enums.values():
            if e.file == fn:
                s += 'enum %s {\n' % e.name
                if fn == 'vte' and e.closed:
                    s += '  option features.enum_type = CLOSED;\n'
                for n, v in e.vals:
                    s += '  %s = %d;\n' % (n, v)
                s += '}\n'
        for m in msgs:
            if m.file == fn and m.decl:
                s += 'message %s {\n' % m.name + fields_text(m, fn, '  ') + '}\n'
        out[fn + '.proto'] = s
    return out


def fields_text(m, fn, ind):
    s = ''
    for f in m.fields:
        if f.card == 'oneof':
            s += ind + 'oneof %s {\n' % f.name
            for a in f.alts:
                s += field_decl(a, fn, ind + '  ', '')
            s += ind + '}\n'
        elif f.card == 'map':
            s += ind + 'map<%s, %s> %s = %d;\n' % (f.key.type, f.val.sub or f.val.type, f.name, f.num)
        else:
            lab = {'implicit': '', 'optional': 'optional ', 'required': 'required ', 'repeated': 'repeated '}[f.card]
            if fn == 'vte' and f.card != 'repeated':
                lab = ''
            if fn == 'vt3' and f.card == 'optional' and f.type == 'msg':
                lab = ''
            s += field_decl(f, fn, ind, lab)
    return s


def field_decl(f, fn, ind, lab):
    if f.type == 'group' and not f.delim:
        g = M_[f.sub]
        return ind + '%sgroup %s = %d {\n' % (lab, g.cpp.split('::')[-1], f.num) + fields_text(g, fn, ind + '  ') + ind + '}\n'
    opts = list(f.opts)
    if f.packed is not None and f.scalar():
        if fn == 'vt3' and not f.packed:
            opts.append('packed = false')
        if fn == 'vt2' and f.packed:
            opts.append('packed = true')
    if f.default:
        opts.append('default = ' + f.default[0])
    return ind + '%s%s %s = %d%s;\n' % (lab, f.sub or f.type, f.name, f.num, (' [' + ', '.join(opts) + ']') if opts else '')


# ------------------------------------------------------------------ TLA+
def tla_field(f):
    sub = ORDER.index(f.sub) + 1 if f.type in ('msg', 'group') else 0
    ev = '{}'
    if f.type == 'enum' and enums[f.sub].closed:
        ev = '{' + ', '.join('<<%s>>' % ','.join(map(str, le(v, 4))) for _, v in enums[f.sub].vals) + '}'
    k = f.type
    dflt = f.default[1] if f.default else ([0] * SIZE[k] if k in SIZE else [])
    if f.type == 'enum' and not f.default:
        dflt = le(enums[f.sub].vals[0][1], 4)
    utf8 = 'TRUE' if (f.type == 'string' and not any('utf8_validation = NONE' in o for o in f.opts) and f.strict) else 'FALSE'
    return '[num |-> %d, kind |-> "%s", packed |-> %s, sub |-> %d, closed |-> %s, vals |-> %s, dflt |-> <<%s>>, hasd |-> %s, utf8 |-> %s]' % (
        f.num, k, 'TRUE' if f.packed else 'FALSE', sub, 'TRUE' if ev != '{}' else 'FALSE', ev, ','.join(map(str, dflt)), 'TRUE' if f.default else 'FALSE', utf8)


def tla_module(name='VtSchema', utf8=False, dyn=False, entries_as_messages=False):
    """dyn: the schema as dynamic messages see it: required fields have presence; entries_as_messages: map fields are repeated entry messages"""
    card = lambda c: 'optional' if dyn and c == 'required' else c
    s = '---- MODULE %s ----\n\\* generated by gen/schema.py from the schema table; do not edit\nEXTENDS Naturals, Sequences\n' % name
    for m in msgs:
        for f in m.fields:
            for g in [f] + (f.alts or []) + [x for x in (f.key, f.val) if x]:
                g.strict = m.file != 'vt2'
    s += 'CheckUtf8 == %s\n' % ('TRUE' if utf8 else 'FALSE')
    s += 'TypeName == <<%s>>\n' % ', '.join('"%s"' % m.name for m in msgs)
    for i, m in enumerate(msgs):
        s += '%s_id == %d\n' % (m.name, i + 1)
    s += 'Schema == <<\n'
    parts = []
    entries = []          # synthetic entry types follow the message types
    for m in msgs:
        fl = []
        for f in m.fields:
            if f.card == 'oneof':
                fl.append('[card |-> "oneof", f |-> <<%s>>]' % ',\n      '.join(tla_field(a) for a in f.alts))
            elif f.card == 'map':
                exp = entries_as_messages       # the fields of an entry have presence
                entries.append('  \\* entry %s.%s\n  <<[card |-> "%s", f |-> <<%s>>],\n    [card |-> "%s", f |-> <<%s>>]>>' % (
                    m.name, f.name, 'optional' if exp else 'implicit', tla_field(f.key), 'optional' if exp else f.val.card, tla_field(f.val)))
                if entries_as_messages:
                    e = F(f.name, f.num, 'msg', 'repeated')
                    e.sub = m.name
                    e.strict = False
                    fl.append('[card |-> "repeated", f |-> <<%s>>]' % re.sub(r'sub \|-> \d+', 'sub |-> %d' % (len(msgs) + len(entries)), tla_field(e)))
                    continue
                fl.append('[card |-> "map", num |-> %d, sub |-> %d, f |-> <<%s,\n      %s>>]' % (
                    f.num, len(msgs) + len(entries), tla_field(f.key), tla_field(f.val)))
            else:
                fl.append('[card |-> "%s", f |-> <<%s>>]' % (card(f.card), tla_field(f)))
        parts.append('  \\* %s\n  <<%s>>' % (m.name, ',\n    '.join(fl)))
    s += ',\n'.join(parts + entries) + '>>\n====\n'
    return s


if __name__ == '__main__':
    import sys, os
    d = sys.argv[1]
    for n, t in proto_files().items():
        open(os.path.join(d, n), 'w').write(t)
    open(os.path.join(d, 'VtSchema.tla'), 'w').write(tla_module())
