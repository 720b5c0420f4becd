"""D01: dynamic messages against the same specification (spec/Wire.tla) with the schema as they see it."""
import random
import codec, codec_checks as cc, hist, schema as S, streams, utf8_checks as u, values

REG = {}
T = 8


def dyn_value(v, t):
    """a value slot tuple for generated code -> the one for dynamic messages (required fields have presence, no unknown fields)"""
    out = []
    for f, x in zip(S.M_[t].fields, v):
        def one(g, y):
            return dyn_value(y, g.sub) if g.type in ('msg', 'group') else y
        if f.card == 'oneof':
            out.append([x[0], one(f.alts[x[0] - 1], x[1])] if x else [])
        elif f.card == 'map':
            out.append([[k, one(f.val, y)] for k, y in x])
        elif f.card == 'repeated':
            out.append([one(f, y) for y in x])
        elif f.card == 'optional':
            out.append([one(f, x[0])] if x else [])
        elif f.card == 'required':
            out.append([one(f, x)])
        else:
            out.append(one(f, x))
    return out + [[]]


class as_dynamic:
    def __enter__(s):
        s.old = S.tla_module
        m = s.old(utf8=True, dyn=True)
        S.tla_module = lambda *a, **k: m
        if len(cc.FAMILY) == T:
            cc.FAMILY.append('dynamic')

    def __exit__(s, *a):
        S.tla_module = s.old


def enc(ctx, n, forms, op='enc', start=0):
    out = []
    for i in range(n):
        g = u.UVal(ctx.rng.getrandbits(60))
        t = g.r.choice(cc.ALL)
        v = dyn_value(g.msg(t), t)
        if g.r.random() < 0.3:      # some required fields absent
            v = [[] if f.card == 'required' and g.r.random() < 0.7 else x for f, x in zip(S.M_[t].fields, v)] + [[]]
        if op == 'enl':
            for lim in (0, 1, 2, 3, 5):
                out.append('enl %d %d %s %d %d %s' % ((start + i) * 10 + lim, T, t, cc.TID[t], lim, values.text(v)))
        else:
            out.append('enc %d %d %s %d %s %s' % (start + i, T, t, cc.TID[t], values.text(v), forms))
    return out


FORMS = 'V,V1,S,S1,U,A,F0,F-1,F-9,F6,a=,a1,a7,a16.3,c1,c7,c10,c64,c12.10.11,d7,c7.L,a100.L'


def D01(ctx):
    exe = codec.dyn_driver() + ' ' + codec.gen_dir() + '/all.binpb'
    ctx.log('driver ready')
    with as_dynamic():
        cc.model_part(ctx, [(exe, T)], cc.ALL, ctx.n(2, 3), ctx.n(24, 16), 'C,P,K1,K3', seed=11)
        gen = u.UGen(ctx.rng.getrandbits(60), noncanon=0.05, unknown=0.1)
        cc.trace_part(ctx, 'streams', exe, cc.dec_lines(ctx, cc.ALL, [T], ctx.n(2000, 40000), 0.05, cc.DFORMS, pre=0.3, gen=gen))
        cc.trace_part(ctx, 'mutated', exe, cc.dec_lines(ctx, cc.ALL, [T], ctx.n(1500, 40000), 0.85, cc.DFORMS, pre=0.1))
        long = dict(noncanon=0.2, unknown=0.05, longs=0.25)
        cc.trace_part(ctx, 'long', exe, cc.dec_lines(ctx, cc.SCALARS, [T], ctx.n(250, 6000), 0.02, cc.DFORMS, pre=0.2, prof=long))
        cc.trace_part(ctx, 'values', exe, enc(ctx, ctx.n(1200, 25000), FORMS))
        cc.trace_part(ctx, 'limits', exe, enc(ctx, ctx.n(100, 2500), '', 'enl'))


REG['D01'] = D01


# ------------------------------------------------------------------ D02: histories of mutable dynamic messages
def hist_types():
    """spec type table with map entries as message types: list of (name or None, slots); slot = (card, [(kind, sub, closed values, default)])"""
    out, ent = [], []
    n = len(S.msgs)
    idx = {m.name: i + 1 for i, m in enumerate(S.msgs)}

    def fd(f):
        sub = idx[f.sub] if f.type in ('msg', 'group') else 0
        e = S.enums[f.sub] if f.type == 'enum' else None
        return (f.type, sub, [v for _, v in e.vals] if e else None, bool(e and e.closed))
    for m in S.msgs:
        sl = []
        for f in m.fields:
            if f.card == 'oneof':
                sl.append(('oneof', [fd(a) for a in f.alts]))
            elif f.card == 'map':
                ent.append([('optional', [fd(f.key)]), ('optional', [fd(f.val)])])
                sl.append(('repeated', [('msg', n + len(ent), None, False)]))
            else:
                sl.append(('optional' if f.card == 'required' else f.card, [fd(f)]))
        out.append(sl)
    return out + ent


class HGen:
    def __init__(s, rng):
        s.r, s.t = rng, hist_types()

    def scal(s, f):
        kind, _, vals, closed = f
        r = s.r
        if kind == 'enum':
            return S.le(r.choice(vals) if closed or r.random() < 0.7 else r.choice([5, -7, 2**31 - 1]), 4)
        if kind == 'bool':
            return [r.randrange(2)]
        if kind in ('string', 'bytes'):
            return [r.choice([0, 65, 66, 127]) if kind == 'string' else r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 5, 20]))]
        n = S.SIZE[kind]
        return r.choice([[0] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [128], [r.randrange(256) for _ in range(n - 1)] + [1], [255] * n if kind not in ('float', 'double') else [1] * n])

    def path(s, t, depth):
        p = []
        while depth > 0 and s.r.random() < 0.55:
            ms = [(i, a) for i, (c, fs) in enumerate(s.t[t - 1]) for a, f in enumerate(fs) if f[0] in ('msg', 'group')]
            if not ms:
                break
            i, a = s.r.choice(ms)
            p.append([i + 1, a + 1, s.r.choice([1, 1, 2, 3]) if s.t[t - 1][i][0] == 'repeated' else 1])
            t = s.t[t - 1][i][1][a][1]
            depth -= 1
        return p, t

    def src(s, bt, want, depth=3):
        """a path in the source message that ends at the wanted type"""
        for _ in range(12):
            p, t = s.path(bt, depth)
            if t == want:
                return p
        return None

    def op(s, ty, bt):
        r = s.r
        p, t = s.path(ty, 3)
        sl = r.randrange(len(s.t[t - 1]))
        card, fs = s.t[t - 1][sl]
        a = r.randrange(len(fs))
        f = fs[a]
        msg = f[0] in ('msg', 'group')
        x = r.random()
        mk = lambda name, arg=0, how=0: [name, p, sl + 1, a + 1, arg, how]
        if x < 0.02:
            return mk('resetall')
        if x < 0.10:
            q = s.src(bt, t)
            if q is not None:
                return mk('clone', q)
        if x < 0.22:
            q = s.src(bt, t)
            if q is not None:
                return mk('rsetm', q, r.randrange(3)) if card == 'repeated' and msg and r.random() < 0.5 else mk('clonef', q, r.randrange(2))
        if x < 0.26:
            return mk('alias', 0, r.randrange(3))
        if card != 'repeated':
            if x < 0.30:
                return mk('bad', 0, r.choice([0, 1, 5, 6] + ([2, 2, 2] if f[0] == 'enum' else [4, 4, 4] if msg else [3])))
            if x < 0.42:
                return mk('reset', 0, r.randrange(4))
            if card == 'oneof' and x < 0.46:
                return mk('clear1')
            if msg:
                if x < 0.75:
                    q = s.src(bt, f[1]) if r.random() < 0.85 else s.path(bt, 2)[0]
                    if q is not None:
                        return mk('setm', q, r.randrange(3))
                return mk('emp', 0, r.randrange(3))
            if x < 0.52:
                return mk('def')
            how = [0, 1, 2, 3, 6, 10] + ([4, 5] if f[0] in ('string', 'bytes') else [9]) + ([7, 8] if f[3] else [])
            return mk('set', s.scal(f), r.choice(how))
        if x < 0.29:
            return mk('bad', 0, r.choice([0, 3, 5]))
        if x < 0.37:
            return mk('rclear', 0, r.randrange(4))
        if x < 0.50:
            return mk('resize', r.choice([0, 1, 2, 3, 5]))
        if x < 0.54:
            return mk('reserve', r.choice([0, 1, 4, 9]))
        if msg:
            return mk('pushm')
        if x < 0.72:
            return mk('push', s.scal(f), 1 if f[3] and r.random() < 0.5 else 0)
        if x < 0.86:
            return mk('rset', [s.scal(f) for _ in range(r.randrange(4))], r.randrange(7 if f[3] else 6))
        return mk('relem', [r.randrange(1, 5), s.scal(f)], r.randrange(2))

    def value(s, t, d=2, fill=0.6):
        out = []
        one = lambda f: (s.value(f[1], d - 1, fill) if d > 0 else s.default(f[1])) if f[0] in ('msg', 'group') else s.scal(f)
        for card, fs in s.t[t - 1]:
            if s.r.random() > fill:
                out.append(s.slot0(card, fs))
            elif card == 'implicit':
                out.append(one(fs[0]))
            elif card == 'optional':
                out.append([one(fs[0])])
            elif card == 'repeated':
                out.append([one(fs[0]) for _ in range(s.r.randrange(1, 4))])
            else:
                a = s.r.randrange(len(fs))
                out.append([a + 1, one(fs[a])])
        return out + [[]]

    def slot0(s, card, fs):
        return [] if card != 'implicit' or fs[0][0] in ('string', 'bytes') else [0] * S.SIZE[fs[0][0]]

    def default(s, t):
        return [s.slot0(*x) for x in s.t[t - 1]] + [[]]


def optext(o):
    return o[0] + ' ' + values.text(o[1:])


def hist_line(i, ty, a, b, ops):
    return '%s %s %d %s %s|%s' % (i, S.msgs[ty - 1].full[3:], ty, values.text(a), values.text(b), '|'.join(map(optext, ops)))


def D02(ctx):
    exe = codec.dyn_driver('dyn_hist.cpp') + ' ' + codec.gen_dir() + '/all.binpb'
    ctx.log('driver ready')
    files = {'VtSchema.tla': S.tla_module(dyn=True, entries_as_messages=True)}
    r = ctx.rng
    cases = []
    ids = [i + 1 for i, m in enumerate(S.msgs)]
    hows = set(range(11))
    rich = {'U3', 'U2', 'EE', 'LE', 'L3', 'N3'}
    groups = [ids] if ctx.quick else [ids[i::3] for i in range(3)]
    for g in groups:
        cfg = 'SPECIFICATION Spec\nCONSTANTS Types={%s}\nPaths=TRUE\nHows={%s}\nINVARIANTS Laws Vec\n' % (
            ','.join(map(str, g)), ','.join(map(str, sorted(hows if not ctx.quick else {0} | set(r.sample(range(1, 11), 3))))))
        res, vec = hist.explore(ctx, 'MCDyn', ['Wire', 'Utf8', 'Dyn', 'MCDyn'], cfg, files)
        ctx.part('model', states=res.distinct, wall_s=round(res.wall, 1))
        for t, a, b, op, allowed in vec:
            if ctx.quick and S.msgs[t - 1].name not in rich and r.random() < 0.5:
                continue
            cases.append((hist_line(len(cases), t, a, b, [op]), [allowed]))
    hist.replay(ctx, 'every operation around every field', exe, cases)
    h = []
    for i in range(ctx.n(400, 8000)):
        gen = HGen(random.Random(r.getrandbits(60)))
        t = gen.r.choice(ids + [ids[-1], cc.TID['U3'], cc.TID['U2'], cc.TID['N3'], cc.TID['EE']])
        a = gen.default(t) if gen.r.random() < 0.4 else gen.value(t, fill=0.3)
        b = gen.value(t, d=3, fill=0.7)
        ops = [gen.op(t, t) for _ in range(ctx.n(40, 60))]
        h.append((i, hist_line(i, t, a, b, ops), dict(ty=t, bt=t, a=a, b=b, ops=ops)))
    hist.traces(ctx, 'long histories', exe, 'DynTrace', ['Wire', 'Utf8', 'Dyn', 'DynTrace'], 'Typed Conforms', h,
                lambda m, d: dict(ty=m['ty'], bt=m['bt'], a=m['a'], b=m['b'],
                                  ev=[dict(op=o, ret=e['ret'], post=e['post'], res=e['res'], why=e['why']) for o, e in zip(m['ops'], d['ev'])]), files=files)


REG['D02'] = D02


# ------------------------------------------------------------------ D03, D04: loading schemas
import descs


def set_line(i, s):
    return '%s L %s %s' % (i, descs.binary(s).hex() or '-', ','.join(n for n, _ in descs.messages(s)) or '-')


def load(ctx, name, exe, sets, k=8):
    h = [(i, set_line(i, s), s) for i, s in enumerate(sets)]
    stat = dict(accepted=0, rejected=0, fields=0)

    def record(s, d):
        e = d['ev'][0]
        stat['accepted' if e['ok'] else 'rejected'] += 1
        stat['fields'] += sum(len(m.get('fields', ())) for m in e['msgs'])
        if not e['ok'] and e['err'] != 9:
            ctx.violation('%s: a readable set was reported as error %d' % (name, e['err']), dict(set=s, recorded=e))
        return dict(ev=[dict(set=s, got=dict(ok=e['ok'], msgs=e['msgs']))])
    hist.traces(ctx, name, exe, 'DescriptorTrace', ['Descriptor', 'DescriptorTrace'], 'Conforms', h, record, k=k)
    ctx.part(name + ' (sets)', **stat)


def family(ctx, exe, fams):
    """whole families of small sets, enumerated and decided by the specification, given to the real loader"""
    for fam, stride in fams:
        cfg = 'SPECIFICATION Spec\nCONSTANTS Family="%s"\nStride=%d\nINVARIANTS Laws Vec\n' % (fam, stride)
        r, vec = hist.explore(ctx, 'MCDescriptor', ['Descriptor', 'MCDescriptor'], cfg, extra=('-seed', str(ctx.rng.getrandbits(31))))
        bad = sum(not v['want']['ok'] for v in vec)
        res = hist.run(ctx, exe, [set_line(i, v['set']) for i, v in enumerate(vec)], 'family ' + fam)
        n = 0
        for i, v in enumerate(vec):
            d = res.get(str(i))
            if d is None:
                continue
            n += 1
            e = d['ev'][0]
            got = dict(ok=e['ok'], msgs=e['msgs'])
            if got != v['want'] or e['err'] not in (0, 9):
                ctx.violation('family %s: %s' % (fam, difference(v['want'], got)), dict(set=v['set'], got=got, want=v['want'], err=e['err'], line=set_line(i, v['set']), driver=exe))
        ctx.cov['impl_calls'] += n
        ctx.cov['traces_validated_against_impl'] += n
        ctx.part('family ' + fam, sets=n, ill_formed=bad, states=r.distinct, wall_s=round(r.wall, 1))


def difference(want, got):
    if want['ok'] != got['ok']:
        return 'an ill-formed set was accepted' if got['ok'] else 'a well-formed set was rejected'
    for a, b in zip(want['msgs'], got['msgs']):
        for f, g in zip(a['fields'], b.get('fields', [])):
            if f != g:
                return '%s field %s: the specification says %s, the library %s' % (a['fn'], f['n'], {k: f[k] for k in f if f[k] != g[k]}, {k: g[k] for k in f if f[k] != g[k]})
    return 'the messages differ'


def D03(ctx):
    exe = codec.dyn_driver('schema.cpp', san_factory=True)
    ctx.log('driver ready')
    q = ctx.n(1, 0)
    family(ctx, exe, [('deps', 1), ('oneof', 1 + 3 * q), ('refs', 1 + 7 * q), ('names', 1 + 7 * q)])
    sets = []
    for _ in range(ctx.n(60, 2000)):
        g = descs.DescGen(random.Random(ctx.rng.getrandbits(60)))
        s = g.make()
        sets.append(s)
        for _ in range(ctx.n(12, 12)):
            t, what = descs.mutate(s, g.r)
            if g.r.random() < 0.2:
                t, what = descs.mutate(t, g.r) if t else (t, what)
            sets.append(t)
    load(ctx, 'well-formed and not', exe, sets)
    garbled(ctx, exe, ctx.n(1500, 60000))


REG['D03'] = D03


def garbled(ctx, exe, n):
    """bytes that are no set at all: an error of the right kind; anything that loads can be used; never a crash"""
    r = ctx.rng
    lines, cut = [], {}
    for i in range(n):
        s = descs.DescGen(random.Random(r.getrandbits(60))).make()
        b = bytearray(descs.binary(s))
        ends, p = {0}, 0
        for f in s:
            p += len(descs.ld(1, descs.b_file(f)))
            ends.add(p)
        if r.random() < 0.3:
            k = r.randrange(len(b))
            cut[str(i)] = k not in ends
            b = b[:k]
        else:
            for _ in range(r.choice([1, 1, 2, 4])):
                k = r.randrange(len(b))
                how = r.random()
                if how < 0.5:
                    b[k] = r.choice([0, 1, 255, 127, 128, b[k] ^ (1 << r.randrange(8))])
                elif how < 0.75:
                    del b[k:k + r.choice([1, 1, 2, 5])]
                else:
                    b[k:k] = bytes(r.choice([0, 8, 10, 18, 255, r.randrange(256)]) for _ in range(r.choice([1, 2])))
                if not b:
                    b = bytearray(b'\n')
        lines.append('%s F %s %s' % (i, bytes(b).hex() or '-', ','.join(x for x, _ in descs.messages(s))))
    res = hist.run(ctx, exe, lines, 'garbled set')
    stat = {0: 0, 8: 0, 9: 0}
    for l in lines:
        i = l.split()[0]
        if i not in res:
            continue
        e = res[i]['ev'][0]['err']
        stat[e] = stat.get(e, 0) + 1
        if e not in (0, 8, 9) or (cut.get(i) and e != 8):
            ctx.violation('a garbled set gave error %d' % e, dict(line=l, driver=exe))
    ctx.cov['impl_calls'] += len(lines)
    ctx.part('garbled sets', sets=len(lines), loaded=stat[0], unreadable=stat[8], ill_formed=stat[9])


def D04(ctx):
    exe = codec.dyn_driver('schema.cpp', san_factory=True)
    ctx.log('driver ready')
    family(ctx, exe, [('feat', ctx.n(3, 1))])
    sets = [descs.DescGen(random.Random(ctx.rng.getrandbits(60))).make() for _ in range(ctx.n(300, 8000))]
    load(ctx, 'random schemas', exe, sets)


REG['D04'] = D04
