"""J01 (base64) and J02 (timestamp and duration texts) against spec/Base64.tla and spec/WktText.tla."""
import json, re
from concurrent.futures import ThreadPoolExecutor
import build, fw, hist, tlc
from build import CheckError

REG = {}


def check(f):
    REG[f.__name__] = f
    return f


def text_exe():
    return build.build_exe([(build.VERIF + '/drivers/text.cpp', build.SAN + ['-D_GLIBCXX_ASSERTIONS', '-I' + build.VERIF + '/drivers/shim'])], ['-fsanitize=address,undefined'])


def instant(y):
    s, n = y
    return [max(-10**9, min(10**9, s // 86400)), s % 86400, n]


def span(y):
    s, n = y
    return [1 if s < 0 else 0, [int(c) for c in str(abs(s))], n]


def abstract(d):
    """the recorded call as the specification sees it"""
    x, y = d['x'], d['y']
    f = {'tse': instant, 'due': span}.get(d['op'])
    if f:
        x = f(x)
    g = {'tsd': instant, 'dud': span}.get(d['op'])
    if g and y != [-1]:
        y = g(y)
    return dict(op=d['op'], x=x, y=y)


def calls(ctx, name, exe, lines):
    res = hist.run(ctx, exe, ['%d %s' % x for x in enumerate(lines)], name)
    recs = [(l, abstract(res[str(i)])) for i, l in enumerate(lines) if str(i) in res]
    chunks = [recs[j::8] for j in range(8) if recs[j::8]]

    def one(a):
        j, c = a
        w = tlc.workdir('%s-%s%d' % (ctx.workname, re.sub(r'\W', '', name), j), ['WktText', 'Base64', 'TextTrace'], {'trace.ndjson': ''.join(json.dumps(x[1]) + '\n' for x in c)})
        return c, w, tlc.run('TextTrace', 'SPECIFICATION Spec\nINVARIANT Conforms\n', w, workers=1, heap='2g', timeout=800)
    st = 0
    with ThreadPoolExecutor(8) as ex:
        for c, w, r in ex.map(one, enumerate(chunks)):
            if not r.ok and not r.violated:
                raise CheckError('TLC failed on a trace (%s): %s' % (w, r.out[-1500:]))
            ctx.tlc(r)
            st += r.distinct
            if r.violated:
                i = int(re.findall(r'\bi = (\d+)', r.out)[-1]) - 2
                line, rec = c[i]
                s = ''.join(map(chr, rec['x'])) if rec['op'] in ('b64d', 'tsd', 'dud') else rec['x']
                ctx.violation('%s: the call %s on %r gave %s, which is not what the specification prescribes' % (name, line[:200], s, json.dumps(rec['y'])[:300]),
                              dict(line=line, recorded=rec, driver=exe))
    ctx.cov['traces_validated_against_impl'] += len(recs)
    ctx.cov['impl_calls'] += len(recs)
    if recs:
        ctx.samples.append(dict(part=name, call=recs[len(recs) // 2][0][:200]))
    ctx.part(name, calls=len(recs), states=st)


def hx(s):
    return bytes(s).hex() if not isinstance(s, str) else s.encode('latin-1').hex()


def mutants(r, base, alphabet, n):
    out = []
    for _ in range(n):
        t = r.choice(base)
        for _ in range(r.choice((1, 1, 1, 2, 3))):
            k = r.randrange(4)
            p = r.randrange(len(t) + 1)
            if k == 0 and p < len(t): t = t[:p] + r.choice(alphabet) + t[p + 1:]
            elif k == 1: t = t[:p] + r.choice(alphabet) + t[p:]
            elif k == 2: t = t[:p] + t[p + 1:]
            else: t = t[:p] if r.random() < 0.3 else t
        out.append(t)
    return out


@check
def J01(ctx):
    exe = text_exe()
    ctx.log('driver ready')
    import base64
    r = ctx.rng
    cfg = 'SPECIFICATION Spec\nCONSTANTS NB=%d\nNT=%d\nBytes={0,1,62,127,128,251,255}\nChars={65,81,103,47,43,61,33,64}\nExport=TRUE\nINVARIANTS Laws Vec\n' % ((4, 4) if ctx.quick else (5, 5))
    res, vec = hist.explore(ctx, 'MCBase64', ['Base64', 'MCBase64'], cfg)
    ctx.part('model', states=res.distinct)
    lines = ['b64%s %s' % (k, hx(x) or '-') for k, x, y in vec]
    out = hist.run(ctx, exe, ['%d %s' % a for a in enumerate(lines)], 'every short string')
    for i, (k, x, y) in enumerate(vec):
        d = out.get(str(i))
        if d and d['y'] != y:
            ctx.violation('base64 %s of %s gave %s, the specification says %s' % (dict(e='encode', d='decode')[k], ''.join(map(chr, x)) if k == 'd' else x, d['y'], y), dict(line=lines[i], recorded=d))
    ctx.cov['traces_validated_against_impl'] += len(lines)
    ctx.cov['impl_calls'] += len(lines)
    ctx.part('every short string', calls=len(lines))
    ls = ['b64e %02x' % b for b in range(256)] + ['b64e %02x%02x%02x' % (a, b, c) for a in (0, 255) for b in range(0, 256, 5) for c in (0, 63, 255)]
    data = [bytes(r.randrange(256) if r.random() < .8 else r.choice((0, 255)) for _ in range(n)) for n in list(range(130)) + [r.randrange(60) for _ in range(ctx.n(700, 12000))]]
    ls += ['b64e ' + (d.hex() or '-') for d in data]
    texts = [base64.b64encode(d).decode() for d in data]
    ls += ['b64d ' + (hx(t) or '-') for t in texts]
    ls += ['b64d ' + hx('QUJD' + 'QQ' + chr(c) + e) for c in range(256) for e in ('=', 'Q', 'A=', chr(c))]
    ls += ['b64d ' + (hx(t) or '-') for t in mutants(r, [t for t in texts if len(t) < 48], 'AQg/+=-_ =\n.=%c%c' % (0, 255), ctx.n(4000, 60000))]
    calls(ctx, 'sampled strings', exe, ls)


@check
def J02(ctx):
    exe = text_exe()
    ctx.log('driver ready')
    r = ctx.rng
    spans = [(-719162, -719162 + 1500), (-1200, 1500), (2932896 - 1500, 2932896)] if ctx.quick else [(a, min(a + 15000, 2932896)) for a in [-719162] + [r.randrange(-719162, 2900000) for _ in range(22)] + [2932896 - 15000]]
    def walk(ab):
        a, b = ab
        cfg = 'SPECIFICATION Spec\nCONSTANTS From<-F\nTo<-T\nNano={0,1,1000,999999999,120000000}\nSecs={0,59,86399}\nINVARIANTS Calendar RoundTrip Offsets Dur\nCHECK_DEADLOCK FALSE\n'
        mod = '---- MODULE MCW ----\nEXTENDS MCWktText\nF == %d\nT == %d\n====\n' % (a, b)
        w = tlc.workdir(ctx.workname + '-cal%d' % (a + 719162), ['WktText', 'MCWktText'], {'MCW.tla': mod})
        return a, b, tlc.run('MCW', cfg, w, heap='2g', workers=1, timeout=3000)
    with ThreadPoolExecutor(8) as ex:
        for a, b, res in ex.map(walk, spans):
            if not res.ok:
                raise CheckError('the calendar breaks its own laws: ' + res.out[-1500:])
            ctx.tlc(res)
            ctx.part('calendar', first=a, last=b, states=res.distinct)
    D = 86400
    import datetime
    ep = datetime.date(1970, 1, 1).toordinal()
    days = []
    for y in range(1, 10000, 1):
        if not ctx.quick or y % 100 in (0, 4, 99, 1) or y in (1970, 2000, 2024, 9999) or r.random() < .1:
            for m, d in ((1, 1), (2, 28), (3, 1), (12, 31), (2, 29)):
                try:
                    days.append(datetime.date(y, m, d).toordinal() - ep)
                except ValueError:
                    pass
    nanos = (0, 1, 999, 1000, 1001, 999999, 1000000, 1000001, 10000000, 100000000, 120000000, 123456789, 999999999, 999000000, 999999000)
    ls = ['tse %d %d' % (d * D + r.choice((0, 1, 59, 60, 3599, 3600, 43200, 86399, r.randrange(D))), r.choice(nanos)) for d in days]
    lo, hi = -62135596800, 253402300799
    ls += ['tse %d %d' % (s, n) for s in (lo, lo - 1, lo + 1, hi, hi + 1, hi - 1, 0, -1, 1, 2**63 - 1, -2**63, 2**31, -2**31, 2**32) for n in (0, 1, -1, 999999999, 1000000000, 2**31 - 1, -2**31)]
    ls += ['tse %d %d' % (r.randint(lo, hi), r.choice(nanos + (r.randrange(10**9),))) for _ in range(ctx.n(1500, 30000))]
    L = 315576000000
    ls += ['due %d %d' % (s, n) for s in (0, 1, -1, 9, 10, -10, 99, L, -L, L + 1, -L - 1, L - 1, 2**63 - 1, -2**63, 2**31, 2**32) for n in (0, 1, -1, 10**9 - 1, 1 - 10**9, 10**9, -10**9, 2**31 - 1, -2**31, 1000, -1000, 10**6, -10**6, 10**7)]
    for _ in range(ctx.n(1500, 30000)):
        s = r.randint(-L, L) // 10**r.randrange(12)
        n = r.choice(nanos + (r.randrange(10**9),)) * r.choice((1, 1, -1))
        ls.append('due %d %d' % (s, -n if s < 0 and r.random() < .9 else n))
    base = ['1970-01-01T00:00:00Z', '2000-02-29T23:59:59.999999999Z', '1900-02-28T12:34:56.7Z', '0001-01-01T00:00:00Z', '9999-12-31T23:59:59.999Z', '2024-11-30T08:09:10.000001Z', '1969-12-31T23:59:59.5Z',
            '2016-12-31T23:59:60Z', '1985-04-12T23:20:50.52+01:30', '1985-04-12T23:20:50-23:59', '0001-01-01T00:00:00+00:01', '9999-12-31T23:59:59-00:01', '0001-01-01T00:00:00-00:01', '2100-02-29T00:00:00Z', '2004-04-31T00:00:00Z']
    alpha = '0123456789--++::TtZz.. 0\x00'
    for t in base:
        ls += ['tsd ' + hx(t[:p] + c + t[p + 1:]) for p in range(len(t)) for c in sorted(set(alpha + '/,e'))]
        ls += ['tsd ' + (hx(t[:p]) or '-') for p in range(len(t) + 1)] + ['tsd ' + hx(t[:p] + c + t[p:]) for p in range(len(t) + 1) for c in '0-+.Z ']
    ls += ['tsd ' + (hx(t) or '-') for t in mutants(r, base, alpha, ctx.n(2000, 60000))]
    for _ in range(ctx.n(1500, 20000)):
        ls.append('tsd ' + hx('%04d-%02d-%02dT%02d:%02d:%02d%s%s' % (r.randrange(0, 10000), r.randrange(0, 14), r.randrange(0, 33), r.randrange(0, 25), r.randrange(0, 61), r.randrange(0, 61),
                                                                  r.choice(('', '.' + ''.join(r.choice('0129') for _ in range(r.randrange(11))))), r.choice(('Z', 'Z', 'Z', '+%02d:%02d' % (r.randrange(25), r.randrange(61)))))))
    base = ['1s', '-1s', '0s', '-0s', '3.5s', '-3.000000001s', '315576000000s', '-315576000000.999999999s', '315576000001s', '0.1s', '-0.1s', '007s', '9223372036854775808s', '18446744073709551617s', '1.123456789s', '1.1234567890s', '.5s', '1.s']
    alpha = '0123456789-+. s\x00e'
    for t in base:
        ls += ['dud ' + hx(t[:p] + c + t[p + 1:]) for p in range(len(t)) for c in alpha] + ['dud ' + (hx(t[:p]) or '-') for p in range(len(t) + 1)] + ['dud ' + hx(t[:p] + c + t[p:]) for p in range(len(t) + 1) for c in alpha]
    ls += ['dud ' + (hx(t) or '-') for t in mutants(r, base, alpha, ctx.n(2000, 60000))]
    calls(ctx, 'formatting and parsing', exe, ls)
