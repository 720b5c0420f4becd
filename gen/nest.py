"""Deeply nested messages: chains of children of every kind, to depths around a limit."""
import random
import schema as S, streams
from streams import varint


def edges():
    """type -> [(field, sub)] through which a message nests"""
    out = {}
    for m in S.msgs:
        for f in m.fields:
            for a in (f.alts or [f]):
                if a.card == 'map':
                    if a.val.type == 'msg':
                        out.setdefault(m.name, []).append((a, a.val.sub))
                elif a.type in ('msg', 'group'):
                    out.setdefault(m.name, []).append((a, a.sub))
    return out


EDGES = edges()


def tag(n, w): return varint(n << 3 | w)


class Nest:
    def __init__(s, seed):
        s.r = random.Random(seed)
        s.g = streams.Gen(seed)
        s.g.r = s.r

    def path(s, t, levels):
        """walk down known edges; returns list of (field, sub)"""
        out = []
        while levels > 0 and t in EDGES:
            rec = [e for e in EDGES[t] if e[1] in EDGES] if levels > 1 else EDGES[t]
            f, sub = s.r.choice(rec or EDGES[t])
            out.append((f, sub))
            t = sub
            levels -= 1
        return out

    def wrap(s, f, body):
        if f.card == 'map':
            k = [0] if f.key.type == 'string' else [0] * S.SIZE[f.key.type] if f.key.type in S.W32 | S.W64 else [s.r.randint(0, 3)]
            e = tag(1, streams.WT(f.key.type)) + k + tag(2, 2) + varint(len(body)) + body
            return tag(f.num, 2) + varint(len(e)) + e
        if f.type == 'group':
            return tag(f.num, 3) + body + tag(f.num, 4)
        return tag(f.num, 2) + varint(len(body)) + body

    def stream(s, t, known, unknown, sib=0.15):
        p = s.path(t, known)
        body = []
        for _ in range(unknown):
            n = s.r.choice([40, 41, 5000])
            body = tag(n, 3) + body + tag(n, 4)
        types = [t] + [x for _, x in p]
        for (f, sub), up in reversed(list(zip(p, types))):
            body = s.wrap(f, body)
            if s.r.random() < sib:   # a sibling before or after must not change the count
                x = s.wrap(f, [])
                body = body + x if s.r.random() < 0.5 else x + body
        return body

    def value(s, t, known, default):
        """abstract value nested `known` levels"""
        p = s.path(t, known)

        def mk(t, i):
            v = default(t)
            if i < len(p):
                f, sub = p[i]
                for j, sl in enumerate(S.M_[t].fields):
                    if sl is f or (sl.alts and f in sl.alts):
                        x = mk(sub, i + 1)
                        if sl.alts: v[j] = [sl.alts.index(f) + 1, x]
                        elif f.card == 'map': v[j] = [[[] if f.key.type == 'string' else [0] * S.SIZE[f.key.type], x]]
                        elif f.card in ('optional', 'repeated'):
                            v[j] = [x]
                            if f.card == 'repeated' and s.r.random() < 0.3: v[j] = [default(sub), x] if s.r.random() < 0.5 else [x, default(sub)]
                        else: v[j] = x
            return v
        return mk(t, 0)
