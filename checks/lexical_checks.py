"""P01: the lexical emitter of the plugin against spec/Lexical.tla."""
import ctypes, json, os, re, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
import build, fw, hist, tlc
from build import CheckError

REG = {}
WORDS = '''alignas alignof asm auto bool break case catch char char8_t char16_t char32_t class concept const consteval constexpr constinit const_cast
continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline
int long mutable namespace new noexcept nullptr operator private protected public register reinterpret_cast requires return short signed sizeof static
static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile
wchar_t while and and_eq bitand bitor compl not not_eq or or_eq xor xor_eq NULL final override import module hpp_proto std main'''.split()


def exe():
    p = build.REPO + '/src/protoc-plugin/'
    fl = build.SAN + ['-D_GLIBCXX_ASSERTIONS', '-I' + p]
    return build.build_exe([(build.VERIF + '/drivers/lexical.cpp', fl), (p + 'cpp_lexical_emitter.cpp', fl)], ['-fsanitize=address,undefined'])


def hx(x):
    if isinstance(x, str): x = x.encode('latin-1')
    return bytes(x).hex() or '-'


def fold(a, xs):
    return a + ' ' + ' '.join(hx(x) for x in xs)


def by(x):
    return list(x.encode('latin-1')) if isinstance(x, str) else list(x)


def calls(ctx, name, drv, cs):
    """cs: [(op, [texts])]; -> records"""
    res = hist.run(ctx, drv, ['%d %s' % (i, fold(*c)) for i, c in enumerate(cs)], name)
    recs = [(c, dict(a=c[0], x=[by(t) for t in c[1]], ok=res[str(i)]['ok'], y=res[str(i)]['y'])) for i, c in enumerate(cs) if str(i) in res]
    chunks = [recs[j::8] for j in range(8) if recs[j::8]]

    def one(a):
        j, c = a
        w = tlc.workdir('%s-%s%d' % (ctx.workname, re.sub(r'\W', '', name), j), ['Lexical', 'LexicalTrace'], {'trace.ndjson': ''.join(json.dumps(x[1]) + '\n' for x in c)})
        return c, w, tlc.run('LexicalTrace', 'SPECIFICATION Spec\nINVARIANT Conforms\n', w, workers=1, heap='2g', timeout=800)
    st = 0
    with ThreadPoolExecutor(8) as ex:
        for c, w, r in ex.map(one, enumerate(chunks)):
            if not r.ok and not r.violated:
                raise CheckError('TLC failed on a trace (%s): %s' % (w, r.out[-1500:]))
            ctx.tlc(r)
            st += r.distinct
            if r.violated:
                (a, x), rec = c[int(re.findall(r'\bi = (\d+)', r.out)[-1]) - 2]
                y = bytes(rec['y']).decode('latin-1')
                ctx.violation('%s: %s%r gave %s, which the specification of the lexical layer does not allow' % (name, a, tuple(x), repr(y) if rec['ok'] else 'an error'),
                              dict(line='0 ' + fold(a, x), recorded=rec, driver=drv))
    ctx.cov['traces_validated_against_impl'] += len(recs)
    ctx.cov['impl_calls'] += len(recs)
    if recs:
        ctx.samples.append(dict(part=name, call=repr(recs[len(recs) // 2][0])[:200]))
    ctx.part(name, calls=len(recs), states=st)
    return recs


def numbers(r, n):
    edges = [0, 1, 7, 8, 255, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 5, 2**70, 2**96, 2**100]
    out = []
    for v in edges + [r.getrandbits(r.choice((8, 31, 32, 33, 63, 64, 65))) for _ in range(n)]:
        for t in ('%d' % v, '0x%x' % v, '0X%X' % v, '0%o' % v, '00%d' % v):
            out += [t, '-' + t, '+' + t]
    out += ['', '-', '+', '0x', '-0x', '--1', '+-1', '1_0', "1'0", '08', '-09', '0b1', '1L', '1u', ' 1', '1 ', '0x-1', '0-1', '1e3', '1.0', 'x', '0' * 40 + '7', '9' * 40]
    return out


def fractions(r, n):
    out = ['0', '-0', '1', '-1', '1.', '.5', '-.5', '.', '', '-', '+1', '1e', '1e+', 'e5', '1e5', '-1E-5', '1.5e+10', 'nan', '-nan', 'inf', '-inf', '+inf', 'infinity', 'INF', 'NAN', 'nan(1)',
           '0x1p3', '0x10', '1f', '1F', '1.0f', '1d', '1 ', ' 1', '1,5', '1.5.2', "1'000.5", '3.4028234663852886e38', '3.4028234663852886e+38', '3.4028235677973366e+38', '3.40282356779733661e38', '3.4028235677973367e38',
           '3.5e38', '1e39', '-1e39', '1.7976931348623157e308', '1.7976931348623158e+308', '1.7976931348623159e308', '1e309', '-1e309', '1e400', '2.2250738585072014e-308', '1.17549435e-38', '1e-38', '1.5e-45', '1.4e-45', '1e-45',
           '1e-46', '1e-60', '4.9406564584124654e-324', '5e-324', '2e-324', '1e-400', '00012.5', '007', '0.0', '-0.0', '0e0', '0e999', '1e00005', '1e-00005', '123456789012345678901234567890', '0.1', '1e22', '1e23', '16777217', '9007199254740993']
    for _ in range(n):
        v = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0] if r.random() < .5 else r.uniform(-1e6, 1e6)
        f = struct.unpack('<f', struct.pack('<I', r.getrandbits(32)))[0]
        for t in ('%.17g' % v, repr(v), '%.9g' % f, '%.6g' % f, '%f' % v if abs(v) < 1e40 else '1', '%g' % v):
            out.append(t)
            if r.random() < .15:
                p = r.randrange(len(t) + 1)
                out.append(t[:p] + r.choice('0.eE+-9fx') + t[p + (r.random() < .5):])
    return out


def strtof(t):
    f = ctypes.CDLL(None).strtof
    f.restype = ctypes.c_float
    f.argtypes = [ctypes.c_char_p, ctypes.c_void_p]
    return f(t.encode(), None)


def compile_stage(ctx, recs, compiler):
    """what real compilers make of the emitted texts: calibrates the specification's rules of the language"""
    src = ['#include <bit>', '#include <cstdint>', '#include <limits>', '#include <cstddef>', 'namespace verif_texts {',
           'template <std::size_t N, std::size_t M> constexpr bool same(const char (&a)[N], const unsigned char (&b)[M]) { if (N != M) return false; for (std::size_t i = 0; i + 1 < N; ++i) if ((unsigned char)a[i] != b[i]) return false; return true; }']
    base = len(src)
    where = []
    seen = set()

    def put(line, rec):
        for l in line.split('\n'):
            src.append(l)
            where.append(rec)
    for (a, x), rec in recs:
        if not rec['ok']: continue
        y = bytes(rec['y']).decode('latin-1')
        if a == 'str': put('static_assert(same(%s, {%s}));' % (y, ','.join(map(str, list(rec['x'][0]) + [0]))), (a, x, y))
        elif a == 'com': put('// %s\nint comment_%d;\nstatic_assert(sizeof comment_%d > 0);' % (y, len(src), len(src)), (a, x, y))
        elif a == 'id':
            if y not in seen and y not in ('std',): put('namespace n%d { struct S { int %s; struct %sX {}; }; namespace %s {} }' % (len(src), y, y, y), (a, x, y))
            seen.add(y)
        elif a in ('i32', 'i64', 'u32', 'u64'):
            t = x[0]
            s, u = (t[0], t[1:]) if t[0] in '+-' else ('', t)
            v = int(u, 16) if u[:2].lower() == '0x' else int(u, 8) if len(u) > 1 and u[0] == '0' else int(u)
            v = -v if s == '-' else v
            ty = dict(i32='std::int32_t', i64='std::int64_t', u32='std::uint32_t', u64='std::uint64_t')[a]
            put('static_assert(std::bit_cast<std::uint%s_t>(%s{%s}) == 0x%xULL);' % (a[1:], ty, y, v % 2**int(a[1:])), (a, x, y))
        elif a in ('flt', 'dbl'):
            if x[0] == 'nan': continue
            bits = struct.unpack('<I', struct.pack('<f', strtof(x[0])))[0] if a == 'flt' else struct.unpack('<Q', struct.pack('<d', float(x[0])))[0]
            put('static_assert(std::bit_cast<std::uint%d_t>(%s{%s}) == 0x%xULL);' % (32 if a == 'flt' else 64, 'float' if a == 'flt' else 'double', y, bits), (a, x, y))
    src.append('}')
    d = tlc.workdir(ctx.workname + '-compile-' + os.path.basename(compiler), [], {'t.cpp': '\n'.join(src) + '\n'})
    p = subprocess.run([compiler, '-std=gnu++23', '-Werror=narrowing', '-Wtrigraphs', '-Werror=trigraphs', '-Werror=comment', '-fsyntax-only', '-fmax-errors=5' if 'g++' == os.path.basename(compiler)[:3] else '-ferror-limit=5', 't.cpp'],
                       cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        n = 0
        for m in re.finditer(r't\.cpp:(\d+):\d+: error: (.*)', p.stdout):
            i = int(m.group(1)) - 1 - base
            if 0 <= i < len(where):
                a, x, y = where[i]
                ctx.violation('%s rejects or misreads what %s%r emits, %r: %s' % (os.path.basename(compiler), a, tuple(x), y, m.group(2)[:150]), dict(line='0 ' + fold(a, x), text=y, compiler=p.stdout[:3000]))
                n += 1
        if not n:
            raise CheckError('the compiler stage failed: ' + p.stdout[:1500])
    return len(where)


def P01(ctx):
    drv = exe()
    ctx.log('driver ready')
    r = ctx.rng
    cfg = 'SPECIFICATION Spec\nCONSTANTS NI=%d\nNS=%d\nNN=%d\nExport=TRUE\nINVARIANTS Laws Vec\n' % ((4, 2, 4) if ctx.quick else (5, 3, 5))
    res, vec = hist.explore(ctx, 'MCLexical', ['Lexical', 'MCLexical'], cfg)
    ctx.part('model', states=res.distinct)
    ctx.log('model: %d texts' % len(vec))
    ex = [(a, [bytes(x)]) for a, x in vec] + [('fd', [bytes(x) + b'.proto']) for a, x in vec if a == 'fd']
    calls(ctx, 'every short text', drv, [(a, [t.decode('latin-1') for t in x]) for a, x in ex])
    ctx.log('every short text')
    # names
    names = WORDS + [w + '_' for w in WORDS] + ['_' + w for w in WORDS] + [w.upper() for w in WORDS] + [w.capitalize() for w in WORDS] + [w[:-1] for w in WORDS] + [w + '2' for w in WORDS]
    al = 'abzAZ09_'
    rnd = [''.join(r.choice(al) for _ in range(r.randrange(1, 12))) for _ in range(ctx.n(300, 4000))]
    odd = [n[:p] + chr(c) + n[p:] for n in ('ab', 'int') for p in (0, 1, len(n)) for c in range(256)]
    cs = [(op, [n]) for op in ('id', 'ns') for n in names + rnd + odd + ['']]
    ok = [n for n in names + rnd if n and not n[0].isdigit() and '__' not in n and not re.match('_[A-Z]', n)]
    cs += [(op, [r.choice(ok), r.choice(ok)]) for op in ('app', 'dis') for _ in range(ctx.n(300, 3000))]
    dn = lambda: '.'.join(r.choice(names + rnd + (['', 'a b'] if r.random() < .1 else [])) for _ in range(r.randrange(1, 5)))
    cs += [('dot', [dn()]) for _ in range(ctx.n(400, 4000))] + [('qn', [r.choice(['', '.'.join(r.sample(ok, r.randrange(1, 3)))]), r.choice(['', '.', '.']) + dn()]) for _ in range(ctx.n(400, 4000))] + [('qn', ['a.class', '.']), ('qn', ['', '.'])]
    comp = lambda: r.choice(names + rnd) * r.choice([1] * 9 + [20]) + r.choice(['', '', '', '-x', '.v1', ' y', '__', '\xe9', '1'])
    path = lambda: '/'.join((r.choice('0129') if r.random() < .1 else '') + comp() for _ in range(r.randrange(1, 4)))
    for _ in range(ctx.n(600, 6000)):
        p = r.choice(['', '', '', '', '/', '//']) + path() + r.choice(['.proto'] * 8 + ['', '.txt', '/', '/.proto', '.proto/'])
        cs.append(('fd', [p] + ([r.choice(names + rnd + ['', 'a-b', '9'])] if r.random() < .3 else [])))
        cs.append(('inc', [r.choice(['', '', 'gen', 'a/b', 'c:\\x', 'q"', 'n\n']), (r.choice(['', '\\', '"', '\n', '\t', '\x7f', '?']) if r.random() < .2 else '') + p, r.choice(['.pb.hpp', '.msg.hpp', ''])]))
    named = calls(ctx, 'names', drv, cs)
    ctx.log('names')
    # literals and comments
    texts = [bytes([a, b]) for a in range(256) for b in range(256)] if not ctx.quick else \
        [bytes([a]) for a in range(256)] + [bytes([a, b]) for a in range(256) for b in b'0179afA?"\\\n/ '] + [bytes([b, a]) for a in range(256) for b in b'0\\?"']
    texts += [bytes(r.choice((r.randrange(256), ord(r.choice('01789abf?/\\"\n='))))for _ in range(r.randrange(3, 40))) for _ in range(ctx.n(500, 8000))]
    texts += [b'??/', b'???/', b'??=x', b'%:%:', b'\\', b'a\\', b'a\\\n', b'*/', b'/*', b'//', b'\\u0041', b'\xc3\xa9', b'\0', b'\x001', b'\x0012', b'\r\n', b'R"(x)"', b'']
    lit = calls(ctx, 'literals and comments', drv, [(op, [t.decode('latin-1')]) for op in ('str', 'com') for t in texts])
    ctx.log('literals and comments')
    ns, fs = numbers(r, ctx.n(60, 1500)), fractions(r, ctx.n(120, 2500))
    num = calls(ctx, 'numbers', drv, [(op, [t]) for op in ('i32', 'i64', 'u32', 'u64') for t in ns] + [(op, [t]) for op in ('flt', 'dbl') for t in fs] +
                [('bool', [t]) for t in ('true', 'false', 'True', '1', '0', '', 'tru', 'truex', 'false ')])
    ctx.log('numbers')
    r.shuffle(lit)
    some = [x for x in named if x[0][0] == 'id'] + lit[:ctx.n(2500, 20000)] + num
    with ThreadPoolExecutor(2) as tp:
        n = list(tp.map(lambda c: compile_stage(ctx, some, c), ('g++', build.CLANG)))
    ctx.cov['impl_calls'] += sum(n)
    ctx.part('compiled by two compilers', texts=n[0])


REG['P01'] = P01
