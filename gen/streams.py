"""Random wire streams for the vt schema: well-formed (but not canonical) encodings and corruptions of them."""
import random
import schema as S


def varint(v, pad=0):
    v &= (1 << 64) - 1
    out = []
    while v > 127:
        out.append(v & 127 | 128)
        v >>= 7
    out.append(v)
    while pad and len(out) < 10:
        out[-1] |= 128
        out.append(0)
        pad -= 1
    return out


WT = lambda k: 0 if k in S.VAR else 1 if k in S.W64 else 5 if k in S.W32 else 3 if k == 'group' else 2


class Gen:
    def __init__(s, seed, noncanon=0.1, unknown=0.15, longs=0.03, badpack=0.0):
        s.badpack = badpack
        s.r = random.Random(seed)
        s.noncanon, s.unknown, s.longs = noncanon, unknown, longs

    def tag(s, num, wt):
        v = varint(num << 3 | wt)
        if s.r.random() < s.noncanon and len(v) < 5:
            v = varint(num << 3 | wt, s.r.randint(1, 5 - len(v)))
        return v

    def length(s, n):
        v = varint(n)
        if s.r.random() < s.noncanon / 2 and len(v) < 5:
            v = varint(n, s.r.randint(1, 5 - len(v)))
        return v

    def anyint(s):
        r = s.r
        k = r.randint(0, 7)
        if k == 0: return 0
        if k == 1: return r.randint(0, 127)
        if k == 2: return r.choice([127, 128, 16383, 16384, 2**21 - 1, 2**21, 2**28, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**35, 2**42, 2**49, 2**56, 2**63 - 1, 2**63, 2**64 - 1])
        if k == 3: return -r.randint(1, 200)
        if k == 4: return r.getrandbits(32)
        if k == 5: return r.getrandbits(64)
        if k == 6: return -r.getrandbits(31)
        return 1 << r.randint(0, 63)

    def enumnum(s, f):
        e = S.enums[f.sub]
        if s.r.random() < 0.6:
            return s.r.choice(e.vals)[1]
        return s.r.choice([0, 1, 2, 3, 4, 5, 7, 127, 128, 300, -1, -2, -3, -5, -128, 2**31 - 1, -2**31, 65536])

    def scalar_wire(s, f):
        """wire bytes (without tag) of a random scalar of field f"""
        k = f.type
        r = s.r
        if k == 'enum':
            v = varint(s.enumnum(f))
        elif k == 'bool':
            v = varint(r.choice([0, 1, 1, 1, 2, 128, 256, 2**63]) if r.random() < 0.5 else r.randint(0, 1))
        elif k in ('int32',):
            v = varint(r.choice([s.anyint(), r.randint(-2**31, 2**31 - 1)]))
        elif k in ('uint32', 'sint32'):
            v = varint(s.anyint() & 0xffffffff)
        elif k in S.VAR:
            v = varint(s.anyint())
        elif k in S.W32:
            return list(r.choice([s.anyint() & 0xffffffff, 0, 0x80000000, 0x7fc00000, 0x7f800001]).to_bytes(4, 'little'))
        elif k in S.W64:
            return list(r.choice([s.anyint() & (2**64 - 1), 0, 1 << 63, 0x7ff8000000000000]).to_bytes(8, 'little'))
        if r.random() < s.noncanon and len(v) < 10:
            v = v[:-1] + [v[-1] | 128] + [128] * r.randint(0, 9 - len(v)) + [0]
            v = v[:10]
            if v[-1] & 128: v[-1] = 0
        return v

    def text(s):
        r = s.r
        k = r.random()
        if k < 0.2: return []
        if k < s.longs + 0.2: n = r.choice([15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129, 200, 300])
        else: n = r.randint(1, 12)
        return [r.choice(b'abcxyz0123456789 \t') for _ in range(n)]

    def blob(s):
        t = s.text()
        return [s.r.randint(0, 255) for _ in t]

    def body_len(s, b):
        return s.length(len(b)) + b

    def occ(s, f, depth):
        """one wire occurrence (tag included) of field f"""
        k = f.type
        r = s.r
        if f.card == 'map':
            e = s.tag_min1(1, WT(f.key.type)) + s.body(f.key, depth)
            x = r.random()
            if x < 0.85: e += s.occ(f.val, depth + 1)
            if x < 0.05: e += s.occ(f.val, depth + 1)
            if x > 0.97: e += s.unknown_tok(None, depth, avoid=(1, 2))
            if 0.80 < x < 0.83: e += s.tag(1, WT(f.key.type)) + s.body(f.key, depth)
            return s.tag(f.num, 2) + s.body_len(e)
        if f.card == 'repeated' and f.scalar() and k not in ('string', 'bytes') and r.random() < (0.8 if f.packed else 0.25):
            n = r.choice([0, 1, 1, 2, 3, 5, 8, 20]) if r.random() > s.longs else r.choice([33, 64, 130])
            b = sum((s.scalar_wire(f) for _ in range(n)), [])
            if s.badpack and b and r.random() < s.badpack:     # the last element goes on where the packed field ends
                b = b[:-1] + [b[-1] | 128]
            return s.tag(f.num, 2) + s.body_len(b)
        if k == 'group':
            return s.tag(f.num, 3) + s.msg(f.sub, depth + 1) + s.tag(f.num, 4)
        return s.tag(f.num, WT(k)) + s.body(f, depth)

    def tag_min1(s, num, wt):
        return s.tag(num, wt)

    def body(s, f, depth):
        k = f.type
        if k == 'string': return s.body_len(s.text())
        if k == 'bytes': return s.body_len(s.blob())
        if k == 'msg': return s.body_len(s.msg(f.sub, depth + 1))
        return s.scalar_wire(f)

    def unknown_tok(s, t, depth, avoid=()):
        r = s.r
        known = set(avoid)
        if t:
            for f in S.M_[t].fields:
                known |= {a.num for a in f.alts} if f.alts else {f.num}
        while True:
            num = r.choice([18, 19, 23, 40, 99, 101, 2046, 2049, 5000, 262145, 40000000, 536870910, r.randint(1, 60)])
            if num not in known: break
        wt = r.choice([0, 1, 2, 2, 3, 5])
        if r.random() < 0.08:                  # two neighbours whose numbers differ in the highest bit
            other = num ^ (1 << 28)
            if other and other not in known and wt in (0, 2, 5):
                v = {0: [r.randint(0, 127)], 2: [1, r.randint(0, 127)], 5: [r.randint(0, 255) for _ in range(4)]}[wt]
                two = [s.tag(num, wt) + v, s.tag(other, wt) + v]
                r.shuffle(two)
                return two[0] + two[1]
        if wt == 0: return s.tag(num, 0) + varint(s.anyint())
        if wt == 1: return s.tag(num, 1) + [r.randint(0, 255) for _ in range(8)]
        if wt == 5: return s.tag(num, 5) + [r.randint(0, 255) for _ in range(4)]
        if wt == 2:
            n = r.choice([1, 1, 1, 2])
            return sum((s.tag(num, 2) + s.body_len(s.blob()) for _ in range(n)), [])
        inner = sum((s.unknown_tok(None, depth + 1) for _ in range(r.randint(0, 2))), []) if depth < 4 else []
        return s.tag(num, 3) + inner + s.tag(num, 4)

    def members(s, t):
        out = []
        for f in S.M_[t].fields:
            out += f.alts if f.alts else [f]
        return out

    def msg(s, t, depth=0, n=None):
        r = s.r
        if n is None:
            n = r.choice([0, 1, 1, 2, 3]) if depth else r.choice([0, 1, 2, 3, 4, 6, 10])
        if depth > 3: n = min(n, 1) if depth < 6 else 0
        mem = s.members(t)
        out = []
        focus = r.sample(mem, min(len(mem), r.randint(1, 4)))
        for _ in range(n):
            if r.random() < s.unknown:
                out += s.unknown_tok(t, depth)
            else:
                f = r.choice(focus if r.random() < 0.7 else mem)
                if depth > 3 and f.type in ('msg', 'group', 'map') : continue
                if s.unknown and r.random() < (0.8 if f.num >= 1 << 28 else 0.04): out += s.alias(t, f, depth)
                out += s.occ(f, depth)
                if s.unknown and r.random() < 0.04: out += s.alias(t, f, depth)
                if f.card in ('repeated', 'map') and r.random() < 0.5:
                    out += s.occ(f, depth)
        return out

    def alias(s, t, f, depth):
        """an unknown field whose number differs from that of a known one in a single high bit"""
        num = f.num ^ (1 << (28 if f.num >= 1 << 28 else s.r.choice([4, 7, 11, 14, 18, 21, 25, 28, 28, 28])))
        if not 0 < num < 1 << 29 or any(num == a.num for a in s.members(t)): return []
        wt = 2 if f.card == 'map' or (f.card == 'repeated' and s.r.random() < .2) else WT(f.type)
        if wt == 3: return s.tag(num, 3) + s.tag(num, 4)
        if wt == 2: return s.tag(num, 2) + s.body_len(s.text())
        return s.tag(num, wt) + (s.scalar_wire(f) if f.scalar() and f.type not in ('string', 'bytes') and wt == WT(f.type) else varint(s.anyint()) if wt == 0 else [s.r.randint(0, 255) for _ in range(8 if wt == 1 else 4)])

    def mutate(s, b):
        r = s.r
        b = list(b)
        k = r.randint(0, 7)
        if k == 0 and b: return b[:r.randint(0, len(b) - 1)]
        if k == 1 and b:
            i = r.randrange(len(b)); b[i] ^= 1 << r.randint(0, 7); return b
        if k == 2 and b:
            i = r.randrange(len(b)); b[i] = r.choice([0, 1, 127, 128, 255, 3, 4, 11, 12]); return b
        if k == 3:
            i = r.randint(0, len(b)); return b[:i] + [r.randint(0, 255) for _ in range(r.randint(1, 3))] + b[i:]
        if k == 4 and b:
            i = r.randrange(len(b)); j = min(len(b), i + r.randint(1, 3)); return b[:i] + b[j:]
        if k == 5: return b + r.choice([[0], [0, 0], [7], [0x80], [0xff] * 10, [0x0c], [0x04], [0x0b], [0x08], [0x80, 0x80, 0x80, 0x80, 0x80, 1],
                                        [0x88, 0x80, 0x80, 0x80, 0x80, 0], [0x08] + [0xff] * 10 + [1], [0x08] + [0xff] * 9 + [1], [0x08] + [0x80] * 9 + [0],
                                        [0x12, 0xff, 0xff, 0xff, 0xff, 0x0f], [0x12, 0xff, 0xff, 0xff, 0xff, 0x07], [0x12, 0x80, 0x80, 0x80, 0x80, 0x10], [0x12] + [0xff] * 9 + [1]])
        if k == 6 and len(b) > 3:
            i = r.randrange(len(b) - 1); b[i], b[i + 1] = b[i + 1], b[i]; return b
        i = r.randint(0, len(b))
        return b[:i] + r.choice([[0x80], [0xff] * 3, [0], [0x03], [0x04]]) + b[i:]


ROOTS = [m.name for m in S.msgs if m.decl]
