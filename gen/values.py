"""Random abstract values (message contents) for the vt schema."""
import random
import schema as S
from streams import Gen


class ValGen:
    def __init__(s, seed, keep=False, dens=None):
        s.r = random.Random(seed)
        s.g = Gen(seed + 1)
        s.g.r = s.r
        s.keep, s.dens = keep, dens

    def scalar(s, f):
        r, k = s.r, f.type
        if k == 'enum':
            e = S.enums[f.sub]
            if e.closed or r.random() < 0.5:
                return S.le(r.choice(e.vals)[1], 4)
            return S.le(s.g.enumnum(f), 4)
        if k == 'bool': return [r.randint(0, 1)]
        if k == 'string': return s.g.text()
        if k == 'bytes': return s.g.blob()
        n = S.SIZE[k]
        x = r.random()
        if x < 0.15: return [0] * n
        if x < 0.3 and k in ('float', 'double'):
            return r.choice([[0] * (n - 1) + [128], S.f32(float('nan')) if n == 4 else S.f64(float('nan')), S.f32(-1.5) if n == 4 else S.f64(-1.5), [1] + [0] * (n - 1),
                             ([0x01, 0, 0x80, 0x7f] if n == 4 else [1, 0, 0, 0, 0, 0, 0xf0, 0x7f])])
        return S.le(s.g.anyint(), n)

    def value(s, f, depth):
        if f.type in ('msg', 'group'):
            return s.msg(f.sub, depth + 1)
        return s.scalar(f)

    def count(s):
        return s.r.choice([1, 1, 2, 3, 5]) if s.r.random() > 0.03 else s.r.choice([17, 33, 64, 129])

    def slot(s, f, on, depth):
        r = s.r
        deep = depth > 2 and r.random() < 0.8 or depth > 5
        if f.card in ('implicit', 'required'):
            if not on and f.type == 'enum' and f.card == 'required':
                return s.scalar(f)
            if not on and f.scalar() or not on and f.type == 'enum':
                if f.card == 'required' and f.default: return list(f.default[1])
                return [0] * S.SIZE[f.type] if f.type not in ('string', 'bytes') else []
            if not on and f.type in ('string', 'bytes'): return []
            if f.type in ('msg', 'group') and (deep or not on): return s.msg(f.sub, 9)
            return s.value(f, depth)
        if not on: return []
        if f.type in ('msg', 'group') and deep: return []
        if f.card == 'optional': return [s.value(f, depth)]
        if f.card == 'repeated':
            n = s.count() if f.type not in ('msg', 'group') or depth < 1 else r.randint(1, 2)
            return [s.value(f, depth) for _ in range(n)]
        if f.card == 'map':
            if f.val.type == 'msg' and deep: return []
            d = {}
            for _ in range(r.choice([1, 2, 3, 4, 7]) if depth < 2 else 1):
                k = s.scalar(f.key)
                d[tuple(k)] = s.msg(f.val.sub, depth + 1) if f.val.type == 'msg' else s.scalar(f.val)
            return [[list(k), d[k]] for k in sorted(d)]
        if f.card == 'oneof':
            i = r.randrange(len(f.alts))
            a = f.alts[i]
            if a.type in ('msg', 'group') and deep: return []
            return [i + 1, s.value(a, depth)]
        raise AssertionError(f.card)

    def msg(s, t, depth=0):
        r = s.r
        fs = S.M_[t].fields
        dens = s.dens if s.dens is not None else r.choice([0, 0.1, 0.3, 0.6, 1.0] if depth else [0.1, 0.2, 0.5, 0.8, 1.0])
        if depth >= 9: dens = 0
        if depth > 1: dens = min(dens, 0.5)
        on = [r.random() < dens for _ in fs]
        if dens and len(fs) > 8 and r.random() < 0.6 and not any(on): on[r.randrange(len(fs))] = True
        v = [s.slot(f, o, depth) for f, o in zip(fs, on)]
        unk = []
        if s.keep and r.random() < 0.25 and depth < 9:
            for _ in range(r.randint(1, 2)):
                unk += s.g.unknown_tok(t, 3)
        return v + [unk]


def text(v):
    return '[' + ','.join(text(x) if isinstance(x, list) else str(x) for x in v) + ']'
