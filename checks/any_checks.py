"""A01: google.protobuf.Any against spec/Any.tla."""
import os, random, threading
from concurrent.futures import ThreadPoolExecutor
import anys, build, codec, hist
from values import text

REG = {}
MODS = ['Wire', 'Utf8', 'Any']


def driver(tid):
    d = codec.gen_dir()
    p = os.path.join(d, 'vt_any.hpp')
    txt = anys.header()
    if not os.path.exists(p) or open(p).read() != txt:
        t = p + '.%d.%d' % (os.getpid(), threading.get_ident())
        open(t, 'w').write(txt)
        os.rename(t, p)
    inc = ['-I' + d, '-I' + build.wkt(), '-I' + build.VERIF + '/drivers', '-DTID=%d' % tid]
    return build.build_exe([(build.VERIF + '/drivers/any.cpp', build.SAN + inc)], [f for f in build.SAN if f.startswith('-fsan') or f.startswith('-fno-san')])


def hx(b):
    return bytes(b).hex() or '-'


class AGen:
    def __init__(s, seed, keep):
        s.r = random.Random(seed)
        s.v = anys.values.ValGen(seed, keep=keep)
        s.w = anys.streams.Gen(seed + 3)
        s.w.r = s.v.r = s.v.g.r = s.r
        s.names = [m.full for m in anys.S.msgs]

    def url(s, t):
        """URLs close to the type's own"""
        r = s.r
        n = anys.S.msgs[t - 1].full
        o = r.choice(s.names)
        return list(r.choice([
            'type.googleapis.com/' + n, 'type.googleapis.com/' + n, 'type.googleapis.com/' + o, '/' + n, 'a/b/c/' + n, n, '//' + n, 'type.googleapis.com/' + n + '/',
            'type.googleapis.com/x' + n, 'type.googleapis.com/' + n + 'x', 'type.googleapis.com/' + n[:-1], 'type.googleapis.com/.' + n, 'type.googleapis.com/' + n.upper(),
            'type.googleapis.com/' + o + '/' + n, 'type.googleapis.com/' + n + '/' + o, '', '/', 'type.googleapis.com/', 'type.googleapis.com/' + n.split('.')[-1],
            'http://example.com/schemas/' + n + '?v=1', 'https://example.com:80/' + n, 'type.googleapis.com/' + n + '\0', 'x' * r.randint(1, 300) + '/' + n, 'type.googleapis.com' + n,
            'type.googleapis.com\\' + n, 'type.googleapis.com/' + n.rsplit('.', 1)[0], 'type.googleapis.com/' + n.replace('.', '/')]).encode())


def A01(ctx):
    r = ctx.rng
    tids = [0, 4, 3, 5] if ctx.quick else list(range(8))
    with ThreadPoolExecutor(8) as ex:
        exes = dict(zip(tids, ex.map(driver, tids)))
    ctx.log('drivers ready')
    ids = [anys.ID[n] for n in anys.TYPES]
    names = [anys.S.msgs[t - 1].full for t in ids]
    pieces = ['/', 'type.googleapis.com', 'vt.', 'x'] + r.sample(names, 3) + ['.', 'vt.G2.Gx', 'vt.G2.Gx.Gz', 'google.protobuf.Any', 'L3', 'vt.L3']
    pieces = list(dict.fromkeys(pieces))
    files = {'VtSchema.tla': anys.tla('UrlPieces == %s\n' % anys.lit([list(p.encode()) for p in pieces]))}
    cfg = 'SPECIFICATION Spec\nCONSTANTS MaxLen=%d\nTypes={%s}\nINVARIANTS Laws Vec\n' % (3, ','.join(str(t) for t in ids if anys.S.msgs[t - 1].full in pieces))
    m, vec = hist.explore(ctx, 'MCAny', MODS + ['MCAny'], cfg, files)
    ctx.part('model', states=m.distinct, wall_s=round(m.wall, 1))
    byt = {t: [] for t in tids}
    for u, t, ok in vec:
        dflt = None
        k = r.choice(tids)
        byt[k].append(('url 1 %s;unpack 1 %d %s -' % (hx(u), t, r.choice(['new', 'old'])), ok))
    for k in tids:
        res = hist.run(ctx, exes[k], ['%d %s' % (i, c[0]) for i, c in enumerate(byt[k])], 'URLs')
        n = 0
        for i, (line, ok) in enumerate(byt[k]):
            d = res.get(str(i))
            if d is None:
                continue
            n += 1
            if d['ev'][-1]['ret'][0] != ok:
                ctx.violation('URL and type: %s gave %s, the specification says %d' % (line, d['ev'][-1]['ret'], ok), dict(line=line, recorded=d, driver=exes[k]))
        ctx.cov['traces_validated_against_impl'] += n
        ctx.cov['impl_calls'] += n
        # the name of every message type
        res = hist.run(ctx, exes[k], ['%d name %d' % (i, i + 1) for i in range(len(anys.S.msgs))], 'names')
        for i, x in enumerate(anys.S.msgs):
            d = res.get(str(i))
            if d and bytes(d['ev'][0]['ret'][1]).decode() != x.full:
                ctx.violation('the name of %s is given as %s' % (x.full, bytes(d['ev'][0]['ret'][1])), dict(type=x.full, recorded=d, driver=exes[k]))
    hs = {}
    for k in tids:
        h = hs[exes[k]] = []
        for i in range(ctx.n(60, 1500)):
            g = AGen(r.getrandbits(60), k >= 5)
            ops, line = [], []
            last = g.r.choice(ids)
            for _ in range(ctx.n(24, 40)):
                c = g.r.random()
                a = g.r.choice([1, 1, 2])
                t = last if g.r.random() < 0.6 else g.r.choice(ids)
                if c < 0.28:
                    last = t = g.r.choice(ids)
                    v = g.v.msg(anys.S.ORDER[t - 1], g.r.choice([0, 0, 1, 9]))
                    o = ['pack', a, t, v]
                    line.append('pack %d %d %s %s' % (a, t, g.r.choice(['plain', 'opt']), text(v)))
                elif c < 0.68:
                    o = ['unpack', a, t]
                    line.append('unpack %d %d %s %s' % (a, t, g.r.choice(['new', 'old', 'old']), text(g.v.msg(anys.S.ORDER[t - 1], 1)) if g.r.random() < 0.6 else '-'))
                elif c < 0.8:
                    o = ['url', a, g.url(t)]
                    line.append('url %d %s' % (a, hx(o[2])))
                elif c < 0.86:
                    b = g.w.msg(anys.S.ORDER[t - 1])
                    if g.r.random() < 0.3: b = g.w.mutate(b)
                    o = ['val', a, b]
                    line.append('val %d %s' % (a, hx(b)))
                elif c < 0.91:
                    o = ['copy', a, 3 - a]
                    line.append('copy %d %d' % (a, 3 - a))
                elif c < 0.95:
                    o = ['enc', a]
                    line.append('enc %d' % a)
                else:
                    b = g.w.msg('Any')
                    u = g.url(t)
                    w = g.w.msg(anys.S.ORDER[t - 1])
                    b += [10] + anys.streams.varint(len(u)) + u + [18] + anys.streams.varint(len(w)) + w
                    o = ['dec', a, b]
                    line.append('dec %d %s' % (a, hx(b)))
                ops.append(o)
            h.append((i, '%d %s' % (i, ';'.join(line)), (k, ops)))
    hist.traces(ctx, 'long histories', hs, 'AnyTrace', MODS + ['AnyTrace'], 'Conforms Faithful', None,
                lambda m, d: dict(keep=m[0] >= 5, ev=[dict(op=o, ret=e['ret'], post=e['post']) for o, e in zip(m[1], d['ev'])]), files=files)


REG['A01'] = A01
