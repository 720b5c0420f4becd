"""C++ dump/build/registration code from the schema table."""
import sys, os
import schema as S


def member(f):
    n = f.name
    return n


def dump_build():
    out = '#pragma once\n#include "drv.hpp"\n#include "vt3.pb.hpp"\n#include "vt2.pb.hpp"\n#include "vte.pb.hpp"\nnamespace vt {\nusing namespace drv;\n'
    cpp = {}
    for m in S.msgs:
        parts = m.cpp.split('::')
        cpp[m.name] = 'vt::' + '_::'.join(parts)
    for m in S.msgs:
        ns, _, nm = cpp[m.name].rpartition('::')
        out += '} namespace %s { template <class Tr> void dump(drv::W &w, const %s<Tr> &m); template <class Tr> void build(drv::Arena &ar, const drv::V &v, %s<Tr> &m); } namespace vt {\n' % (ns, nm, nm)
    for m in S.msgs:
        ns, _, nm = cpp[m.name].rpartition('::')
        d = bld = ''
        for i, f in enumerate(m.fields):
            x = 'm.' + member(f)
            fn = {'implicit': 'v', 'required': 'v', 'optional': '_opt', 'repeated': '_rep', 'map': '_map', 'oneof': '_one'}[f.card]
            d += '  drv::d%s(w, %s);\n' % (fn, x)
            bld += '  drv::b%s(ar, v[%d], %s);\n' % (fn, i, x)
        d += '  drv::d_unk(w, m.unknown_fields_);\n'
        bld += '  drv::b_unk(ar, v[%d], m.unknown_fields_);\n' % len(m.fields)
        out += '} namespace %s {\ntemplate <class Tr> void dump(drv::W &w, const %s<Tr> &m) {\n  w.open();\n%s  w.close();\n}\n' % (ns, nm, d)
        out += 'template <class Tr> void build(drv::Arena &ar, const drv::V &v, %s<Tr> &m) {\n%s}\n} namespace vt {\n' % (nm, bld)
    out += '}\n'
    for g, names in S.GROUPS.items():
        out += '#if GRP == %d\n#define VT_ROOTS(X) ' % g + ' '.join('X(%s, %s)' % (n, cpp[n]) for n in names) + '\n#endif\n'
    return out


if __name__ == '__main__':
    open(os.path.join(sys.argv[1], 'vt_codec.hpp'), 'w').write(dump_build())
