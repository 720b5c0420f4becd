"""The schema table with google.protobuf.Any as one more message type."""
import random
from fork import fork
import schema as base


def _setup(X):
    X.msgs = X.msgs + [X.M('Any', [X.F('type_url', 1, 'string', 'implicit'), X.F('value', 2, 'bytes', 'implicit')], 'vt3')]
    X.msgs[-1].full = 'google.protobuf.Any'


S, streams, values = fork('any', _setup)
TYPES = ['L3', 'S3', 'N3', 'U3', 'M3', 'L2', 'R2', 'GR', 'GX', 'GZ', 'Q2', 'EE', 'Any']
ID = {n: i + 1 for i, n in enumerate(S.ORDER)}


def lit(v):
    return '<<' + ', '.join(lit(x) if isinstance(x, list) else str(x) for x in v) + '>>'


def tla(extra=''):
    t = S.tla_module().replace('\n====\n', '\n')
    return t + 'FullName == %s\n' % lit([list(m.full.encode()) for m in S.msgs]) + extra + '====\n'


def header():
    out = '#pragma once\n#include "vt_codec.hpp"\n#include <google/protobuf/any.pb.hpp>\n'
    out += '''namespace google::protobuf {
template <class Tr> void dump(drv::W &w, const Any<Tr> &m) { w.open(); drv::dv(w, m.type_url); drv::dv(w, m.value); drv::d_unk(w, m.unknown_fields_); w.close(); }
template <class Tr> void build(drv::Arena &ar, const drv::V &v, Any<Tr> &m) { drv::bv(ar, v[0], m.type_url); drv::bv(ar, v[1], m.value); drv::b_unk(ar, v[2], m.unknown_fields_); }
}
template <class Tr, class F> void with_type(int t, F f) {
  switch (t) {
'''
    cpp = lambda m: 'google::protobuf::Any' if m.name == 'Any' else 'vt::' + '_::'.join(m.cpp.split('::'))
    for n in TYPES:
        out += '  case %d: f.template operator()<%s<Tr>>(); break;\n' % (ID[n], cpp(S.M_[n]))
    out += '  }\n}\ntemplate <class Tr> std::string name_of(int t) {\n  switch (t) {\n'
    for n in S.ORDER:
        out += '  case %d: return hpp_proto::message_name(%s<Tr>{});\n' % (ID[n], cpp(S.M_[n]))
    return out + '  }\n  return {};\n}\n'
