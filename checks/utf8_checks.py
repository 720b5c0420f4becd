"""W13: text validity (spec/Utf8.tla, spec/Wire.tla with CheckUtf8).  The is_utf8 library is absent: drivers/utf8_standin.cpp
takes its place, and the model decides what it has to answer."""
import json, time
from concurrent.futures import ThreadPoolExecutor
import codec, codec_checks as cc, fw, schema as S, streams, tlc, values
from build import CheckError

REG = {}


def char(u):
    return list(chr(u).encode('utf-8', 'surrogatepass'))


def utext(r, bad):
    """random text; with probability bad an ill-formed one"""
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9, 9, 20] + ([40] if r.random() < 0.2 else []))):
        out += char(r.choice([r.randint(0, 127), r.randint(0x80, 0x7ff), r.choice([0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff]),
                              r.randint(0x800, 0xd7ff), r.randint(0x10000, 0x10ffff)]))
    if r.random() < bad:
        i = r.randint(0, len(out))
        k = r.random()
        if k < 0.6:
            out[i:i] = r.choice([[0x80], [0xbf], [0xc0, 0x80], [0xc1, 0xbf], [0xe0, 0x9f, 0xbf], [0xed, 0xa0, 0x80], [0xed, 0xbf, 0xbf], [0xf0, 0x8f, 0xbf, 0xbf], [0xf4, 0x90, 0x80, 0x80],
                                 [0xf5, 0x80, 0x80, 0x80], [0xff], [0xfe], [0xc3], [0xe2, 0x82], [0xf0, 0x9f, 0x98]])
        elif k < 0.8 and out:
            out.pop()
        elif out:
            out[r.randrange(len(out))] ^= 1 << r.randint(0, 7)
    return out


class UGen(streams.Gen):
    bad = 0.12

    def text(s):
        return utext(s.r, s.bad)

    def blob(s):
        return utext(s.r, 0.5)

    def members(s, t):
        m = super().members(t)
        st = [f for f in m if f.type in ('string', 'bytes', 'msg') or f.card == 'map']
        return st if st and s.r.random() < 0.8 else m


class UVal(values.ValGen):
    def __init__(s, seed, keep=False):
        super().__init__(seed, keep)
        g = UGen(seed + 1)
        g.r, g.bad = s.r, s.r.choice([0, 0.02, 0.1])
        s.g = g


def W13(ctx):
    exe = codec.driver([0, 6], ['DEC', 'ENC'], utf8=True)
    ctx.log('driver ready')
    cc_sch = S.tla_module(utf8=True)
    t0 = time.time()
    w = tlc.workdir(ctx.workname + '-utf8', ['Utf8', 'MCUtf8'], {})
    r = tlc.run('MCUtf8', 'SPECIFICATION Spec\nCONSTANTS N=%d\nExport=TRUE\nINVARIANTS Agrees Vec\n' % ctx.n(3, 4), w, heap='6g')
    if not r.ok:
        raise CheckError('Utf8.tla: ' + r.out[-1500:])
    ctx.tlc(r)
    vec = [json.loads(json.loads(l)[4:]) for l in r.out.splitlines() if l.startswith('"VEC ')]
    # every string of the model, in every kind of place a string can be
    places = []
    for t in cc.ALL:
        for f in S.M_[t].fields:
            for a in (f.alts or [f]):
                for what in ([a.key, a.val] if a.card == 'map' else [a]):
                    if what.type in ('string', 'bytes'):
                        places.append((t, a, what))
    strict = lambda t, a, f: f.type == 'string' and S.M_[t].file != 'vt2' and not any('utf8_validation = NONE' in o for o in f.opts + a.opts)
    g = streams.Gen(1, noncanon=0, unknown=0, longs=0)
    lines, want = [], {}
    for n, (b, ok) in enumerate(vec):
        ps = places if len(b) < 2 else [places[(n * 7 + j * 5) % len(places)] for j in range(2)]
        for j, (t, a, f) in enumerate(ps):
            if a.card == 'map':
                k = g.tag(1, streams.WT(a.key.type)) + (g.body_len(b) if f is a.key else g.body(a.key, 9))
                v = g.tag(2, streams.WT(a.val.type)) + (g.body_len(b) if f is a.val else g.body(a.val, 9)) if a.val.type != 'msg' else []
                if a.key.type == 'string' and f is not a.key:
                    k = g.tag(1, 2) + [1, 65]
                e = g.tag(a.num, 2) + g.body_len(k + v)
            else:
                e = g.tag(a.num, 2) + g.body_len(b)
            for tid in (0, 6):
                i = len(lines)
                want[i] = 1 if ok or not strict(t, a, f) else 0
                lines.append('dec %d %d %s %d -1 %s C,P,K1,K2' % (i, tid, t, cc.TID[t], bytes(e).hex()))
    sh = fw.shards(lines)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda x: fw.run_lines(exe, x, timeout=700), sh))
    calls = 0
    for l, (rc, out, err, cul) in zip(sh, res):
        if rc:
            cc.crash(ctx, exe, l, rc, err, cul)
            continue
        for e in map(json.loads, out.splitlines()):
            calls += 4
            if any(x[0] != want[e['id']] for x in e['res']):
                ln = lines[e['id']]
                ctx.violation('text validity: %s gives %s, the specification %s' % (cc.describe(ln), str(e['res'])[:200], 'accepts' if want[e['id']] else 'rejects'),
                              dict(line=ln, recorded=e, rerun='echo <line> | ' + exe))
                break
    ctx.cov['traces_validated_against_impl'] += len(lines)
    ctx.cov['impl_calls'] += calls
    ctx.part('strings of MCUtf8 in %d places' % len(places), states=r.distinct, replayed=len(lines), calls=calls, wall_s=round(time.time() - t0, 1))
    old = S.tla_module
    S.tla_module = lambda *a, **k: cc_sch
    try:
        gen = UGen(ctx.rng.getrandbits(60), noncanon=0.05, unknown=0.08)
        cc.trace_part(ctx, 'streams', exe, cc.dec_lines(ctx, cc.ALL, [0, 6], ctx.n(2500, 25000), 0.05, cc.DFORMS, pre=0.1, gen=gen))
        lines = []
        for i in range(ctx.n(1500, 15000)):
            for tid in (0, 6):
                g2 = UVal(ctx.rng.getrandbits(60), keep=tid >= 5)
                t = g2.r.choice(cc.ALL)
                lines.append('enc %d %d %s %d %s V,S,N,a=,c7,F0,F5' % (i * 10 + tid, tid, t, cc.TID[t], values.text(g2.msg(t))))
        cc.trace_part(ctx, 'values', exe, lines)
    finally:
        S.tla_module = old


REG['W13'] = W13
