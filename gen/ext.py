"""The schema of the extension checks: a host message, extensions of every kind declared at file level, inside messages,
in a proto2 and in an edition file, as a second instance of the schema table (gen/schema.py and the generators on it)."""
import random
from fork import fork


def _setup(X):
    E, F, M, le, b = X.E, X.F, X.M, X.le, X.b
    X.enums = {e.name: e for e in (E('Ce', [('CE_TWO', 2), ('CE_ZERO', 0), ('CE_NEG', -1)], 'vx', True), E('Oe', [('OE_ZERO', 0), ('OE_ONE', 1)], 'vxe', False))}
    X.msgs = [
        M('Host', [F('plain', 1, 'int32', 'optional'), F('ces', 3, 'enum:Ce', 'repeated', False), F('ce', 4, 'enum:Ce', 'optional'),
                   F('kid', 5, 'msg:Host', 'optional'), F('str', 7, 'string', 'optional')], 'vx'),
        M('Sub', [F('a', 1, 'int32', 'optional'), F('r', 2, 'int32', 'repeated', False), F('s', 3, 'string', 'optional')], 'vx'),
        M('XGrp', [F('g', 1, 'int32', 'optional'), F('gr', 2, 'int32', 'repeated', False)], 'vx'),
        M('XRGrp', [F('g', 1, 'int32', 'optional')], 'vx'),
        M('ESub', [F('a', 1, 'int32', 'implicit'), F('r', 2, 'int32', 'repeated', True)], 'vxe')]
    # extensions: C++ name template ({T} = traits), number, kind, cardinality, default
    ext = [
        ('vx::x_i32', 100, 'int32', 'required', None), ('vx::x_i32d', 101, 'int32', 'required', ('42', le(42, 4))),
        ('vx::x_str<{T}>', 102, 'string', 'required', None), ('vx::x_strd<{T}>', 103, 'string', 'required', ('"abc"', b('abc'))),
        ('vx::x_byt<{T}>', 104, 'bytes', 'required', ('"\\001\\002"', [1, 2])), ('vx::x_ce', 105, 'enum:Ce', 'required', None),
        ('vx::x_ced', 106, 'enum:Ce', 'required', ('CE_NEG', le(-1, 4))), ('vx::x_sub<{T}>', 107, 'msg:Sub', 'required', None),
        ('vx::xgrp<{T}>', 108, 'group:XGrp', 'required', None), ('vx::x_ri<{T}>', 109, 'int32', 'repeated', None),
        ('vx::x_rp<{T}>', 110, 'int32', 'packed', None), ('vx::x_rs<{T}>', 111, 'string', 'repeated', None),
        ('vx::x_rsub<{T}>', 112, 'msg:Sub', 'repeated', None), ('vx::x_rce<{T}>', 113, 'enum:Ce', 'repeated', None),
        ('vx::x_rcep<{T}>', 114, 'enum:Ce', 'packed', None), ('vx::x_dbl', 115, 'double', 'required', ('inf', X.f64(float('inf')))),
        ('vx::x_s64', 116, 'sint64', 'required', ('-7', le(-7, 8))), ('vx::x_f32', 117, 'fixed32', 'required', None),
        ('vx::x_bool', 118, 'bool', 'required', ('true', [1])), ('vx::xrgrp<{T}>', 119, 'group:XRGrp', 'repeated', None),
        ('vx::x_flt', 536870911, 'float', 'required', None), ('typename vx::Host<{T}>::nested', 130, 'int32', 'required', None),
        ('typename vx::Host<{T}>::nested_subs', 131, 'msg:Sub', 'repeated', None), ('vx::x_rb<{T}>', 132, 'bool', 'packed', None),
        ('vx::x_rbyt<{T}>', 133, 'bytes', 'repeated', None), ('vx::x_u64', 134, 'uint64', 'required', ('18446744073709551615', le(-1, 8))),
        ('vx::ed::y_i32', 200, 'int32', 'required', None), ('vx::ed::y_str<{T}>', 201, 'string', 'required', None),
        ('vx::ed::y_oe', 202, 'enum:Oe', 'required', None), ('vx::ed::y_sub<{T}>', 203, 'group:ESub', 'required', None),
        ('vx::ed::y_ri<{T}>', 204, 'int32', 'packed', None), ('vx::ed::y_rsub<{T}>', 205, 'group:ESub', 'repeated', None),
        ('vx::ed::y_roe<{T}>', 206, 'enum:Oe', 'packed', None), ('vx::ed::y_byt<{T}>', 207, 'bytes', 'required', None),
        ('vx::ed::y_rs<{T}>', 208, 'string', 'repeated', None), ('vx::ed::y_f64', 209, 'fixed64', 'required', None),
        ('typename vx::ed::Inner<{T}>::deep', 210, 'sfixed32', 'required', ('5', le(5, 4)))]
    X.EXT = []
    X.real = list(X.msgs)
    for cpp, num, kind, card, dflt in ext:
        short = cpp.split('::')[-1].split('<')[0]
        f = F('value', num, kind, 'repeated' if card == 'packed' else card, packed=(card == 'packed') if card != 'required' else None, default=dflt)
        X.msgs.append(M('X_' + short, [f], 'vxe' if '::ed::' in cpp else 'vx', decl=False))
        X.EXT.append((short, cpp, f))


S, streams, values = fork('ext', _setup)
NX = len(S.EXT)

PROTO = {'vx.proto': '''syntax = "proto2";
package vx;
enum Ce { CE_TWO = 2; CE_ZERO = 0; CE_NEG = -1; }
message Sub { optional int32 a = 1; repeated int32 r = 2; optional string s = 3; }
message Host {
  optional int32 plain = 1;
  repeated Ce ces = 3;
  optional Ce ce = 4;
  optional Host kid = 5;
  optional string str = 7;
  extensions 100 to max;
  extend Host { optional int32 nested = 130; repeated Sub nested_subs = 131; }
}
extend Host {
  optional int32 x_i32 = 100;
  optional int32 x_i32d = 101 [default = 42];
  optional string x_str = 102;
  optional string x_strd = 103 [default = "abc"];
  optional bytes x_byt = 104 [default = "\\001\\002"];
  optional Ce x_ce = 105;
  optional Ce x_ced = 106 [default = CE_NEG];
  optional Sub x_sub = 107;
  optional group XGrp = 108 { optional int32 g = 1; repeated int32 gr = 2; }
  repeated int32 x_ri = 109;
  repeated int32 x_rp = 110 [packed = true];
  repeated string x_rs = 111;
  repeated Sub x_rsub = 112;
  repeated Ce x_rce = 113;
  repeated Ce x_rcep = 114 [packed = true];
  optional double x_dbl = 115 [default = inf];
  optional sint64 x_s64 = 116 [default = -7];
  optional fixed32 x_f32 = 117;
  optional bool x_bool = 118 [default = true];
  repeated group XRGrp = 119 { optional int32 g = 1; }
  repeated bool x_rb = 132 [packed = true];
  repeated bytes x_rbyt = 133;
  optional uint64 x_u64 = 134 [default = 18446744073709551615];
  optional float x_flt = 536870911;
}
''', 'vxe.proto': '''edition = "2023";
package vx.ed;
import "vx.proto";
option features.field_presence = IMPLICIT;
option features.message_encoding = DELIMITED;
enum Oe { OE_ZERO = 0; OE_ONE = 1; }
message ESub { int32 a = 1; repeated int32 r = 2; }
message Inner { extend vx.Host { sfixed32 deep = 210 [default = 5]; } }
extend vx.Host {
  int32 y_i32 = 200;
  string y_str = 201;
  Oe y_oe = 202;
  ESub y_sub = 203;
  repeated int32 y_ri = 204;
  repeated ESub y_rsub = 205;
  repeated Oe y_roe = 206;
  bytes y_byt = 207;
  repeated string y_rs = 208;
  fixed64 y_f64 = 209;
}
'''}
CPP = {'Host': 'vx::Host', 'Sub': 'vx::Sub', 'XGrp': 'vx::XGrp', 'XRGrp': 'vx::XRGrp', 'ESub': 'vx::ed::ESub'}


def header():
    """dump / build of the messages and the list of extensions for drivers/ext.cpp"""
    out = '#pragma once\n#include "vx.pb.hpp"\n#include "vxe.pb.hpp"\n'
    for decl in (True, False):
        for m in S.real:
            ns, _, nm = CPP[m.name].rpartition('::')
            out += 'namespace %s {\n' % ns
            if decl:
                out += 'template <class Tr> void dump(drv::W &w, const %s<Tr> &m); template <class Tr> void build(drv::Arena &ar, const drv::V &v, %s<Tr> &m);\n}\n' % (nm, nm)
                continue
            d = bl = ''
            for i, f in enumerate(m.fields):
                fn = {'implicit': 'v', 'required': 'v', 'optional': '_opt', 'repeated': '_rep'}[f.card]
                d += '  drv::d%s(w, m.%s);\n' % (fn, f.name)
                bl += '  drv::b%s(ar, v[%d], m.%s);\n' % (fn, i, f.name)
            if m.name == 'Host':
                out += 'template <class Tr> void dump(drv::W &w, const Host<Tr> &m) {\n  w.s += (w.s.empty() || w.s.back() == \'[\' || w.s.back() == \':\') ? "{\\"k\\":" : ",{\\"k\\":";\n  w.s += \'[\';\n%s  w.close();\n  w.s += ",\\"x\\":";\n  drv::W q;\n  drv::d_ext(q, m.unknown_fields_);\n  w.s += q.s;\n  w.s += \'}\';\n}\n' % d
                out += 'template <class Tr> void build(drv::Arena &, const drv::V &, Host<Tr> &) {}\n}\n'
                continue
            out += 'template <class Tr> void dump(drv::W &w, const %s<Tr> &m) {\n  w.open();\n%s  drv::d_unk(w, m.unknown_fields_);\n  w.close();\n}\n' % (nm, d)
            out += 'template <class Tr> void build(drv::Arena &ar, const drv::V &v, %s<Tr> &m) {\n%s  drv::b_unk(ar, v[%d], m.unknown_fields_);\n}\n}\n' % (nm, bl, len(m.fields))
    out += 'template <class Tr, class F> void with_ext(int e, F f) {\n  switch (e) {\n'
    for i, (_, cpp, _) in enumerate(S.EXT):
        out += '  case %d: f.template operator()<%s>(); break;\n' % (i + 1, cpp.format(T='Tr'))
    return out + '  }\n}\n'


def tla(extra=''):
    t = S.tla_module().replace('\n====\n', '\n')
    t += 'XT == <<%s>>\nHostKid == 4\n' % ', '.join(str(S.ORDER.index('X_' + n) + 1) for n, _, _ in S.EXT)
    return t + extra + '====\n'


def lit(v):
    return '<<' + ', '.join(lit(x) if isinstance(x, list) else str(x) for x in v) + '>>'


class XGen:
    def __init__(s, seed):
        s.r = random.Random(seed)
        s.v = values.ValGen(seed, keep=False)
        s.w = streams.Gen(seed + 7)
        s.v.g.r = s.v.r = s.w.r = s.r

    def value(s, e, special=0.3):
        """a value of extension e; often its default, zero or empty"""
        f = S.EXT[e - 1][2]
        if f.card == 'repeated':
            n = s.r.choice([0, 0, 1, 1, 2, 3, 9])
            return [s.one(f) for _ in range(n)]
        if s.r.random() < special:
            if f.default and s.r.random() < 0.6:
                return list(f.default[1])
            if f.type in ('msg', 'group'):
                return s.v.msg(f.sub, 9)
            if f.type == 'enum':
                return S.le(0, 4)
            return [0] * S.SIZE[f.type] if f.scalar() else []
        return s.one(f)

    def one(s, f):
        return s.v.msg(f.sub, 1) if f.type in ('msg', 'group') else s.v.scalar(f)

    def occ(s, e):
        """wire occurrences of extension e, rarely with the wrong wire type"""
        f = S.EXT[e - 1][2]
        if s.r.random() < 0.04:
            return s.r.choice([streams.varint(f.num << 3) + [7], streams.varint(f.num << 3 | 2) + [1, 7], streams.varint(f.num << 3 | 5) + [1, 2, 3, 4]])
        out = []
        for _ in range(s.r.choice([1, 1, 1, 2, 3])):
            out += s.w.occ(f, 2)
        return out

    def host(s, focus, depth=0):
        """wire bytes of a host message"""
        r = s.r
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            x = r.random()
            if x < 0.6:
                out += s.occ(r.choice(focus))
            elif x < 0.68:
                out += s.occ(r.randint(1, NX))
            elif x < 0.78 and depth < 2:
                k = s.host(focus, depth + 1)
                out += [5 << 3 | 2] + streams.varint(len(k)) + k
            elif x < 0.84:
                out += s.w.unknown_tok('Host', 2, avoid=[f.num for _, _, f in S.EXT])
            else:
                out += s.w.occ(r.choice([f for f in S.M_['Host'].fields if f.name != 'kid']), 2)
        return out
