"""Token vocabularies of the message types for the bounded model check: per field a few short occurrences, unknown
fields and malformed tails."""
import random
import schema as S, streams


def tokens(t, per_field=2, seed=1, limit=None, fields=None, malformed=True, unknowns=2):
    g = streams.Gen(seed * 1000 + S.ORDER.index(t), noncanon=0.12, longs=0.0)
    out = []
    for f in g.members(t):
        if fields and not fields(f):
            continue
        cand = {}
        for _ in range(12):
            b = g.occ(f, 3)
            if len(b) <= 40:
                cand[tuple(b)] = 1
        c = sorted(cand, key=len)
        # a short one and a random longer one
        pick = c[:1] + (g.r.sample(c[1:], min(len(c) - 1, per_field - 1)) if len(c) > 1 else [])
        out += [list(x) for x in pick]
    fixed = [g.unknown_tok(t, 3) for _ in range(unknowns)]
    if malformed:
        fixed += [g.r.choice([[0], [0x80], [0x0c], [0x07], [0x0a, 0x05, 1], [0xff] * 6, [0x0b]])]
    if limit and len(out) > limit - len(fixed):
        out = g.r.sample(out, limit - len(fixed))
    return out + fixed


def module(types, voc=None, **kw):
    voc = voc or {t: tokens(t, **kw) for t in types}
    tl = lambda b: '<<' + ','.join(map(str, b)) + '>>'
    rows = []
    for t in S.ORDER:
        rows.append('<<' + ','.join(tl(b) for b in voc.get(t, [])) + '>>')
    return ('------ MODULE VtVocab ------\nTypes == {%s}\nVocab == <<%s>>\n======\n' %
            (','.join(str(S.ORDER.index(t) + 1) for t in types), ',\n'.join(rows)))
