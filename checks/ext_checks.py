"""E01: extensions against spec/Ext.tla (every small state and operation, long histories)."""
import json, os, random, threading
from concurrent.futures import ThreadPoolExecutor
import build, ext, hist, tlc
from values import text

REG = {}
MODS = ['Wire', 'Utf8', 'Ext']
VIEWS = (4, 6)


def gen_dir():
    d = build.generate(ext.PROTO, 'vx')
    p = os.path.join(d, 'vx_ext.hpp')
    txt = ext.header()
    if not os.path.exists(p) or open(p).read() != txt:
        t = p + '.%d.%d' % (os.getpid(), threading.get_ident())
        open(t, 'w').write(txt)
        os.rename(t, p)
    return d


def driver(tid):
    inc = ['-I' + gen_dir(), '-I' + build.VERIF + '/drivers', '-DTID=%d' % tid]
    return build.build_exe([(build.VERIF + '/drivers/ext.cpp', build.SAN + inc)], [f for f in build.SAN if f.startswith('-fsan') or f.startswith('-fno-san')])


def hx(b):
    return bytes(b).hex() or '-'


def op_text(o, presets):
    if o[0] == 'set':
        return 'set %d %d %s' % (o[1], o[2], text(o[3]))
    if o[0] == 'get':
        return 'get %d %d %s' % (o[1], o[2], text(presets) if presets is not None else '-')
    if o[0] == 'dec':
        return 'dec %d %s %s' % (o[1], hx(o[2]), o[3] if len(o) > 3 else 'C')
    return ' '.join(map(str, o))


def model_files(gen):
    """small values and stored occurrences of every extension for the exhaustive model"""
    vals, raws = [], []
    for e in range(1, ext.NX + 1):
        f = ext.S.EXT[e - 1][2]
        if f.card == 'repeated':
            one, two = gen.one(f), gen.one(f)
            v = [[], [one], [two, one]]
        elif f.type in ('msg', 'group'):
            v = [gen.v.msg(f.sub, 9), gen.one(f)]
        else:
            dflt = list(f.default[1]) if f.default else ext.S.le(2, 4) if f.sub == 'Ce' else [0] * ext.S.SIZE[f.type] if f.scalar() or f.type == 'enum' else []
            v = [dflt] + [x for x in ([0] * len(dflt) if f.type != 'enum' else dflt, gen.one(f)) if x != dflt][:2]
        vals.append(v)
        raw = [ext.streams.varint(f.num << 3 | (5 if ext.streams.WT(f.type) != 5 else 0)) + ([1, 2, 3, 4] if ext.streams.WT(f.type) != 5 else [7])]
        if f.type == 'enum':
            raw += [ext.streams.varint(f.num << 3) + ext.streams.varint(77), ext.streams.varint(f.num << 3) + [0] + ext.streams.varint(f.num << 3) + ext.streams.varint(-3)]
        raws.append(raw)
    x = 'XVals == %s\nXRaw == %s\n' % (ext.lit(vals), ext.lit(raws))
    return vals, {'VtSchema.tla': ext.tla(x)}


def E01(ctx):
    r = ctx.rng
    tids = [0, 1, 4, 3, 6] if ctx.quick else list(range(8))
    with ThreadPoolExecutor(8) as ex:
        exes = dict(zip(tids, ex.map(driver, tids)))
    ctx.log('drivers ready')
    # every operation on every small state
    gen = ext.XGen(r.getrandbits(60))
    vals, files = model_files(gen)
    ids = list(range(1, ext.NX + 1))
    groups = [[e] for e in ids]
    for _ in range(ctx.n(4, 60)):
        groups.append(sorted(r.sample(ids, 2)))
    cases = []

    def model(k):
        cfg = 'SPECIFICATION Spec\nCONSTANTS Groups={%s}\nExport=TRUE\nINVARIANTS Laws Vec\n' % ','.join('{%s}' % ','.join(map(str, g)) for g in groups[k::8])
        w = tlc.workdir('%s-m%d' % (ctx.workname, k), MODS + ['MCExt'], files)
        x = tlc.run('MCExt', cfg, w, workers=1, heap='1g', timeout=600)
        if not x.ok:
            raise build.CheckError('the specification MCExt breaks its own laws: ' + x.out[-1500:])
        return x, [json.loads(json.loads(l)[4:]) for l in x.out.splitlines() if l.startswith('"VEC ')]
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(model, range(8)))
    n = 0
    byt = {t: [] for t in tids}
    for x, vec in out:
        ctx.tlc(x)
        n += x.distinct
        for s, op, res, b1, b2 in vec:
            t = r.choice(tids)
            if op[0] == 'eq' and t in VIEWS:
                t = r.choice([q for q in tids if q not in VIEWS])
            if op[0] == 'enc':      # the ordered families write by number
                t = r.choice([q for q in tids if q in (1, 3, 5, 7)])
            pre = []
            if b1: pre.append('dec 1 %s C' % hx(b1))
            if b2: pre.append('dec 2 %s C' % hx(b2))
            o = list(op)
            preset = None
            if op[0] == 'set':
                o[3] = vals[op[2] - 1][op[3] - 1]
            if op[0] == 'get':
                preset = vals[op[2] - 1][op[3] - 1] if op[3] else None
                o = op[:3]
            ret, post = res
            if op[0] == 'enc':
                ret = [1, b1]
            byt[t].append((pre + [op_text(o, preset)], [[ret, post]]))
    ctx.part('model', groups=len(groups), states=n)
    for t in tids:
        hist.replay(ctx, 'every operation on every small state (family %d)' % t, exes[t], [('%d %s' % (i, ';'.join(c[0])), c[1]) for i, c in enumerate(byt[t])])
    # long histories
    hs = {}
    for t in tids:
        h = hs[exes[t]] = []
        for i in range(ctx.n(60, 1500)):
            g = ext.XGen(r.getrandbits(60))
            focus = g.r.sample(ids, g.r.choice([1, 2, 4, 8]))
            ops, line = [], []
            for _ in range(ctx.n(30, 50)):
                k = g.r.random()
                m = g.r.choice([1, 1, 2])
                e = g.r.choice(focus) if g.r.random() < 0.93 else g.r.choice(ids)
                pre = None
                if k < 0.27: o = ['set', m, e, g.value(e)]
                elif k < 0.52:
                    o = ['get', m, e]
                    pre = g.value(e) if g.r.random() < 0.6 else None
                elif k < 0.65: o = ['has', m, e]
                elif k < 0.77:
                    w = g.host(focus)
                    if g.r.random() < 0.08: w = g.w.mutate(w)
                    o = ['dec', m, w, g.r.choice('CCK')]
                elif k < 0.86: o = ['enc', m]
                else: o = [g.r.choice(['copy', 'merge', 'merge', 'mergem', 'eq']), m, 3 - m]
                ops.append(o[:3] if o[0] == 'dec' else o)
                line.append(op_text(o, pre))
            h.append((i, '%d %s' % (i, ';'.join(line)), (t, ops)))
    hist.traces(ctx, 'long histories', hs, 'ExtTrace', MODS + ['ExtTrace'], 'Typed Conforms', None,
                lambda m, d: dict(view=m[0] in VIEWS, keep=m[0] >= 5, ev=[dict(op=o, ret=e['ret'], post=e['post']) for o, e in zip(m[1], d['ev'])]), files=files)


REG['E01'] = E01
