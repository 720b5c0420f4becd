"""Programs whose messages are encoded and decoded in constant expressions."""
import schema as S
from values import text

TR = {0: 'hpp_proto::default_traits', 1: 'hpp_proto::stable_traits', 4: 'hpp_proto::non_owning_traits', 5: 'hpp_proto::keep_unknown_fields<hpp_proto::stable_traits>',
      6: 'hpp_proto::keep_unknown_fields<hpp_proto::non_owning_traits>'}
KEEP = lambda tid: tid >= 5


def cpp(n):
    return 'vt::' + '_::'.join(S.M_[n].cpp.split('::'))


def lit(b):
    return '"%s"' % ''.join('\\%03o' % x for x in b)


def needs(types):
    """the message types reachable from these"""
    seen, todo = set(), list(types)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        for f in S.M_[t].fields:
            for x in (f.alts or [f]):
                for y in ([x.val] if x.type == 'map' else [x]):
                    if y.type in ('msg', 'group'):
                        todo.append(y.sub)
    return seen


def has_map(t):
    return any(f.type == 'map' for u in needs([t]) for f in S.M_[u].fields)


def header():
    out = '#include "const.hpp"\n#include "vt3.pb.hpp"\n#include "vt2.pb.hpp"\n#include "vte.pb.hpp"\n'
    for m in S.msgs:
        ns, _, nm = cpp(m.name).rpartition('::')
        out += 'namespace %s { template <class Tr> constexpr void dump(kst::W &w, const %s<Tr> &m); }\n' % (ns, nm)
    for m in S.msgs:
        ns, _, nm = cpp(m.name).rpartition('::')
        d = ''.join('  kst::d%s(w, m.%s);\n' % ({'implicit': '_v', 'required': '_v', 'optional': '_opt', 'repeated': '_rep', 'map': '_map', 'oneof': '_one'}[f.card], f.name) for f in m.fields)
        out += 'namespace %s {\ntemplate <class Tr> constexpr void dump(kst::W &w, const %s<Tr> &m) {\n  w.open();\n%s  kst::d_unk(w, m.unknown_fields_);\n  w.close();\n}\n}\n' % (ns, nm, d)
    return out


class Lit:
    """a constant message of a non-owning family, as C++"""
    def __init__(s, tid):
        s.tr, s.decls, s.n = 'Tr%d' % tid, [], 0
        s.keep = KEEP(tid)

    def name(s):
        s.n += 1
        return 'c%d' % s.n

    def scalar(s, ty, f, v):
        """an expression of C++ type ty holding v, of the kind of field f"""
        if f.type in ('string', 'bytes'):
            n = s.name()
            s.decls.append('constexpr auto %s = kst::store<%s>(%s);' % (n, ty, lit(v)))
            return '%s{%s.data(), %s.size()}' % (ty, n, n)
        if f.type in ('msg', 'group'):
            return s.msg(f.sub, v)
        return 'kst::num<%s>(%s)' % (ty, lit(v))

    def typed(s, ty, f, v):
        """as scalar, but ty may be an indirect view of a message"""
        if f.type in ('msg', 'group'):
            m = s.msg(f.sub, v)
            n = s.name()
            s.decls.append('constexpr auto %s = kst::wrap<%s>(%s);' % (n, ty, m))
            return n
        return s.scalar(ty, f, v)

    def msg(s, t, v):
        T = '%s<%s>' % (cpp(t), s.tr)
        body = []
        for i, f in enumerate(S.M_[t].fields):
            ft, x = 'decltype(%s::%s)' % (T, f.name), v[i]
            if f.card in ('implicit', 'required'):
                body.append('m.%s = %s;' % (f.name, s.typed(ft, f, x)))
            elif f.card == 'optional':
                if x:
                    e = s.scalar('kst::Deref<%s>' % ft, f, x[0])
                    body.append('kst::set(m.%s, %s);' % (f.name, e))
            elif f.card == 'repeated':
                if x:
                    es = [s.typed('kst::Elem<%s>' % ft, f, y) for y in x]
                    n = s.name()
                    s.decls.append('constexpr std::array<kst::Elem<%s>, %d> %s{%s};' % (ft, len(x), n, ', '.join(es)))
                    body.append('m.%s = %s;' % (f.name, n))
            elif f.card == 'map':
                if x:
                    es = ['kst::Elem<%s>{%s, %s}' % (ft, s.typed('kst::First<%s>' % ft, f.key, k), s.typed('kst::Second<%s>' % ft, f.val, y)) for k, y in x]
                    n = s.name()
                    s.decls.append('constexpr std::array<kst::Elem<%s>, %d> %s{%s};' % (ft, len(x), n, ', '.join(es)))
                    body.append('m.%s = %s;' % (f.name, n))
            elif x:
                e = s.typed('std::variant_alternative_t<%d, %s>' % (x[0], ft), f.alts[x[0] - 1], x[1])
                body.append('m.%s.template emplace<%d>(%s);' % (f.name, x[0], e))
        if v[-1] and s.keep:
            ft = 'decltype(%s::unknown_fields_.fields)' % T
            n = s.name()
            s.decls.append('constexpr auto %s = kst::store<%s>(%s);' % (n, ft, lit(v[-1])))
            body.append('m.unknown_fields_.fields = %s{%s.data(), %s.size()};' % (ft, n, n))
        n = s.name()
        s.decls.append('constexpr auto %s = [] { %s m{}; %s return m; }();' % (n, T, ' '.join(body)))
        return n


def unit(cases):
    """cases: ('dec', id, tid, type, bytes, form) and ('enc', id, tid, type, value)"""
    out, main = header(), ''
    for t in sorted({c[2] for c in cases}):
        out += 'using Tr%d = %s;\n' % (t, TR[t])
    for c in cases:
        op, i, tid, t = c[:4]
        T = '%s<Tr%d>' % (cpp(t), tid)
        if op == 'dec':
            out += '#line %d "dec"\nconstexpr auto b_%d = kst::bytes(%s); constexpr auto r_%d = kst::pack([] { return kst::dec<%s>(b_%d, \'%s\'); });\n' % (i, i, lit(c[4]), i, T, i, c[5])
            main += '  printf("{\\"id\\":%d,\\"op\\":\\"dec\\",\\"tid\\":%d,\\"ty\\":%d,\\"keep\\":%s,\\"lim\\":100,\\"b\\":%%s,\\"res\\":[%%s],\\"forms\\":[\\"%s\\"]}\\n", kst::jb(b_%d).c_str(), kst::str(r_%d).c_str());\n' % (
                i, tid, S.ORDER.index(t) + 1, 'true' if KEEP(tid) else 'false', c[5], i, i)
        else:
            l = Lit(tid)
            m = l.msg(t, c[4])
            out += 'namespace e_%d {\n#line %d "enc"\n%s constexpr auto b = hpp_proto::write_binpb([] { return %s; }); constexpr auto v = kst::pack([] { return kst::dumped(%s); });\n}\n' % (i, i, ' '.join(l.decls), m, m)
            main += ('  { std::vector<std::byte> rt; auto st = hpp_proto::write_binpb(e_%d::%s, rt); std::string v = kst::str(e_%d::v);\n'
                     '    printf("{\\"id\\":%d,\\"op\\":\\"enc\\",\\"tid\\":%d,\\"ty\\":%d,\\"v\\":%s,\\"rv\\":%s,\\"cv\\":%%s,\\"rt\\":[1,%s],\\"res\\":[[1,%%s],[%%d,%%s]],\\"forms\\":[\\"constant\\",\\"runtime\\"]}\\n", '
                     'v.c_str(), kst::jb(e_%d::b).c_str(), int(st.ok()), kst::jb(rt).c_str()); }\n') % (i, m, i, i, tid, S.ORDER.index(t) + 1, text(c[4]), text(c[4]), text(c[4]), i)
    return out + '#line 1 "main"\nint main() {\n' + main + '}\n'
