"""W01..W12: the binary codec against spec/Wire.tla.

Every check has two halves.
  model  TLC explores every message that is a concatenation of at most N vocabulary tokens (spec/MCWire.tla), checks the
         laws of the format on each, and exports (input, outcome); the real decoder is run on all of them (model -> code).
  trace  seeded streams / values are given to the real library; each recorded call is re-enacted by the specification's
         decoder machine or encoder (spec/CodecTrace.tla) (code -> model).
"""
import json, os, re, time
from concurrent.futures import ThreadPoolExecutor
import build, codec, fw, schema as S, streams, tlc, values, vocab
from build import CheckError

INV = ['MachineOK', 'DecodeAgrees', 'EncodeAgrees', 'RoundTrip', 'StableOrder', 'EncodeLimit', 'MergeAgrees', 'MergeLaw']
TID = {t: S.ORDER.index(t) + 1 for t in S.ORDER}
FAMILY = ['default', 'stable', 'pmr', 'pmr_stable', 'non_owning', 'keep<stable>', 'keep<non_owning>', 'keep<pmr_stable>']


def describe(line):
    w = line.split()
    d = dict(op=w[0], traits=FAMILY[int(w[2])], type=w[3])
    if w[0] == 'dec':
        d.update(bytes=w[6], forms=w[7], limit=w[5])
        if len(w) > 8: d['prepopulated_from'] = w[8]
    elif w[0] == 'enl': d.update(limit=w[5], value=w[6], forms='V,c7')
    elif w[0] == 'enc': d.update(value=w[5], forms=w[6])
    else: d.update(value=w[5], other=w[6], forms=w[7])
    return d


def validate(ctx, name, events, extra=()):
    w = tlc.workdir('%s-%s' % (ctx.workname, name), ['Wire', 'Utf8', 'CodecTrace'], {'VtSchema.tla': S.tla_module(), 'trace.ndjson': events})
    r = tlc.run('CodecTrace', 'SPECIFICATION Spec\nINVARIANTS %s\n' % ' '.join(INV), w, workers=1, heap='2g', timeout=800, extra=extra)
    if not r.ok and not r.violated:
        raise CheckError('TLC failed on a trace (%s): %s' % (w, r.out[-1500:]))
    return r


def bad_event(r, evs):
    m = re.search(r'Invariant (\w+) is violated(.*)', r.out, re.S)
    ii = re.findall(r'i = (\d+)', m.group(2))
    return m.group(1), evs[int(ii[-1]) - 1]


def report_event(ctx, exe, inv, ev, line):
    """run the single case again before saying anything"""
    rc, out, err, _ = fw.run_lines(exe, [line])
    if rc:
        ctx.violation('%s: %s' % (fw.crash_text(rc, err), describe(line)), dict(line=line, driver=exe))
        return
    r = validate(ctx, 'again', out)
    if not r.violated:
        raise CheckError('a violation of %s by %s did not repeat' % (inv, line[:300]))
    e = json.loads(out)
    ctx.violation('%s by %s of %s (%s): outcomes %s' % (inv, e['op'], e and S.ORDER[e['ty'] - 1], FAMILY[e['tid']],
                  '; '.join('%s <- %s' % (str(a).replace(' ', '')[:200], b[:80]) for a, b in zip(e['res'], e['forms']))[:700]),
                  dict(invariant=inv, line=line, case=describe(line), recorded=e, tlc=r.out[-4000:], driver=exe,
                       rerun='echo <line> | <driver>'))


def crash(ctx, exe, lines, rc, err, cul):
    byid = {l.split()[1]: l for l in lines}
    if cul in byid:
        rc1, _, err1, _ = fw.run_lines(exe, [byid[cul]])
        if rc1:
            ctx.violation('%s: %s' % (fw.crash_text(rc1, err1), describe(byid[cul])), dict(line=byid[cul], stderr=err1[-6000:], driver=exe))
            return True
    # only in company (leaks are reported at exit)
    rc2, _, err2, _ = fw.run_lines(exe, lines, timeout=600)
    if rc2:
        lo, hi = 0, len(lines)
        part = lines
        while len(part) > 1:   # bisect
            half = len(part) // 2
            for p in (part[:half], part[half:]):
                if fw.run_lines(exe, p, timeout=600)[0]:
                    part = p
                    break
            else:
                break
        rc3, _, err3, _ = fw.run_lines(exe, part)
        ctx.violation('%s: %s' % (fw.crash_text(rc3 or rc2, err3 or err2), describe(part[0])), dict(lines=part[:50], stderr=(err3 or err2)[-6000:], driver=exe))
        return True
    raise CheckError('a driver failure did not repeat: ' + fw.crash_text(rc, err))


def trace_part(ctx, name, exe, lines, k=8):
    """run the driver on the lines, have the specification explain everything that happened"""
    t0 = time.time()
    sh = fw.shards(lines, k)

    def one(j):
        rc, out, err, cul = fw.run_lines(exe, sh[j], timeout=700)
        if rc:
            return ('crash', sh[j], rc, err, cul)
        evs = [json.loads(l) for l in out.splitlines()]
        if len(evs) != len(sh[j]):
            raise CheckError('driver answered %d of %d' % (len(evs), len(sh[j])))
        r = validate(ctx, '%s%d' % (name, j), out)
        return ('done', sh[j], r, evs)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(sh))))
    calls = nst = 0
    for x in res:
        if x[0] == 'crash':
            crash(ctx, exe, *x[1:])
            continue
        _, ls, r, evs = x
        ctx.tlc(r)
        nst += r.distinct
        calls += sum(len(f.split(',')) for e in evs for f in e['forms'])
        if r.violated:
            inv, e = bad_event(r, evs)
            report_event(ctx, exe, inv, e, next(l for l in ls if l.split()[1] == str(e['id'])))
        elif len(ctx.samples) < 6:
            ctx.samples.append(describe(ls[len(ls) // 2]))
    ctx.cov['traces_validated_against_impl'] += len(lines)
    ctx.cov['impl_calls'] += calls
    ctx.part(name, traces=len(lines), states=nst, calls=calls, wall_s=round(time.time() - t0, 1))


def model_part(ctx, exe_tids, types, n, limit, forms, seed=1, voc=None, laws=True, **kw):
    """TLC explores and exports; the real decoder answers the same questions"""
    t0 = time.time()
    w = tlc.workdir(ctx.workname + '-model', ['Wire', 'Utf8', 'MCWire'], {'VtSchema.tla': S.tla_module(), 'VtVocab.tla': vocab.module(types, voc, limit=limit, seed=seed, **kw)})
    r = tlc.run('MCWire', 'SPECIFICATION Spec\nCONSTANTS N=%d\nExport=TRUE\nINVARIANTS %s Vec\n' % (n, 'RoundTripLaw ConcatLaw DropLaw CanonLaw MergeUnit' if laws else ''), w, heap='8g')
    if not r.ok:
        raise CheckError('the specification breaks its own laws: ' + r.out[-1500:])
    ctx.tlc(r)
    vec = [json.loads(json.loads(l)[4:]) for l in r.out.splitlines() if l.startswith('"VEC ')]
    lines, want = [], {}
    for i, (t, b, ok, v, stripped) in enumerate(vec):
        for exe, tid in exe_tids:
            k = i * 10 + tid
            lines.append((exe, 'dec %d %d %s %d -1 %s %s' % (k, tid, S.ORDER[t - 1], t, bytes(b).hex() or '-', forms)))
            want[k] = (ok, v if 5 <= tid < 8 else stripped)
    sent = 0
    for exe in sorted({e for e, _ in exe_tids}):
        ls = [l for e, l in lines if e == exe]
        sh = fw.shards(ls)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda x: fw.run_lines(exe, x, timeout=700), sh))
        for l, (rc, out, err, cul) in zip(sh, res):
            if rc:
                crash(ctx, exe, l, rc, err, cul)
                continue
            for e in map(json.loads, out.splitlines()):
                ok, v = want[e['id']]
                for x in e['res']:
                    if (x[0] == 1) != (ok == 1) or x[0] not in (0, 1) or ok and x[2] != v:
                        ln = next(y for y in l if y.split()[1] == str(e['id']))
                        report_event(ctx, exe, 'DecodeAgrees', e, ln)
                        break
                sent += sum(len(f.split(',')) for f in e['forms'])
    ctx.cov['traces_validated_against_impl'] += len(lines)
    ctx.cov['impl_calls'] += sent
    ctx.part('model ' + ','.join(types)[:40], states=r.distinct, depth=n, replayed=len(lines), calls=sent, wall_s=round(time.time() - t0, 1))
    return vec


DFORMS = 'C,P,PX,K1,K2,K3,K7,K0.1.5,K16,K17,K33'


def dec_lines(ctx, types, tids, n, mut, forms, pre=0.0, prof=None, gen=None, start=0):
    g = gen or streams.Gen(ctx.rng.getrandbits(60), **(prof or {}))
    out = []
    for i in range(n):
        t = g.r.choice(types)
        b = g.msg(t)
        m = 0
        while g.r.random() < mut and m < 2:
            b = g.mutate(b)
            m += 1
        hx = bytes(b).hex() or '-'
        ex = ''
        if g.r.random() < pre:
            ex = ' ' + (bytes(g.msg(t)).hex() or '-')
        for tid in tids:
            f = forms(g, b) if callable(forms) else forms
            out.append('dec %d %d %s %d -1 %s %s%s' % ((start + i) * 10 + tid, tid, t, TID[t], hx, f, ex))
    return out


def enc_lines(ctx, types, tids, n, forms, start=0, keep=None):
    out = []
    gs = {}
    for i in range(n):
        for tid in tids:
            if (tid >= 5) not in gs:
                gs[tid >= 5] = values.ValGen(ctx.rng.getrandbits(60), keep=tid >= 5)
            g = gs[tid >= 5]
            t = g.r.choice(types)
            f = forms(g) if callable(forms) else forms
            out.append('enc %d %d %s %d %s %s' % ((start + i) * 10 + tid, tid, t, TID[t], values.text(g.msg(t)), f))
    return out


def mrg_lines(ctx, types, tids, n, start=0):
    out = []
    for i in range(n):
        for tid in tids:
            g = values.ValGen(ctx.rng.getrandbits(60), keep=tid >= 5)
            t = g.r.choice(types)
            out.append('mrg %d %d %s %d %s %s C,L,M' % ((start + i) * 10 + tid, tid, t, TID[t], values.text(g.msg(t)), values.text(g.msg(t))))
    return out


ALL = streams.ROOTS


REG = {}


def check(f):
    REG[f.__name__] = f
    return f


NO_OP = []
SCALARS = ['S3', 'O3', 'R3', 'S2', 'R2', 'LE', 'EE', 'L2', 'L3']
MAPS = ['M3', 'M2', 'N3', 'EE']
ONEOFS = ['U3', 'U2', 'EE']
ENUMS = ['S2', 'R2', 'L2', 'U2', 'M2', 'EE', 'Q2', 'O3', 'R3', 'M3']
SMALL_ENC = 'V,V1,S,N,c7,a='
ENC_FORMS = 'V,V1,S,S1,U,R,A,N,P0,P1,P13,PS5,PU3,F0,F-1,F-7,F5,a=,a1,a7,a10,a16.3,c1,c2,c3,c9,c10,c11,c64,c1000,c5.1,c12.10.11,g=,g1000,g1,d7,d1000,c7.L,c30.L,a100.L'


@check
def W01(ctx):
    exe = codec.driver([0, 6], ['DEC'])
    ctx.log('driver ready')
    model_part(ctx, [(exe, 0), (exe, 6)], ALL, ctx.n(2, 3), ctx.n(24, 16), 'C,P,K1,K3', seed=1)
    trace_part(ctx, 'streams', exe, dec_lines(ctx, ALL, [0, 6], ctx.n(4000, 40000), 0.05, DFORMS, pre=0.3))
    long = dict(noncanon=0.2, unknown=0.05, longs=0.25)
    trace_part(ctx, 'long', exe, dec_lines(ctx, SCALARS, [0, 6], ctx.n(600, 6000), 0.02, DFORMS, pre=0.2, prof=long))


@check
def W02(ctx):
    exe = codec.driver([0, 6], ['DEC'])
    ctx.log('driver ready')
    alpha(ctx, exe)
    trace_part(ctx, 'mutated', exe, dec_lines(ctx, ALL, [0, 6], ctx.n(5000, 50000), 0.85, DFORMS, pre=0.1, prof=dict(badpack=0.1)))
    trace_part(ctx, 'cut', exe, cut_lines(ctx, [0, 6], ctx.n(90, 900)))
    trace_part(ctx, 'inner limits', exe, limit_lines(ctx, [0, 6], ctx.n(1200, 12000)))


def alpha(ctx, exe):
    """all byte strings up to a length over an alphabet of tags, varint pieces and delimiters"""
    t0 = time.time()
    total = 0
    for t, al in (('R2', [0, 1, 2, 8, 0x0a, 0x8a, 0x80, 0xff, 0x92, 0x9a]), ('G2', [0, 1, 8, 0x0b, 0x0c, 0x1a, 0xa3, 0xa4, 6, 2, 0x80]),
                  ('M2', [0, 1, 2, 4, 0x0a, 8, 0x10, 3, 0x12, 0x80]), ('U3', [0, 2, 8, 0x12, 0x22, 0x38, 0x80, 0xa2, 1, 0x0f])):
        tok = [[x] for x in al]
        N = ctx.n(3, 5) if t != 'R2' else ctx.n(4, 5)
        model_part(ctx, [(exe, 0), (exe, 6)], [t], N, None, 'C,P,PX,K1,K2', voc={t: tok}, laws=False)


def cut_lines(ctx, tids, n):
    """every truncation of valid streams, and every single-byte length increase"""
    g = streams.Gen(ctx.rng.getrandbits(60), longs=0.02)
    out, k = [], 0
    for _ in range(n):
        t = g.r.choice(ALL)
        b = g.msg(t)[:60]
        for c in range(len(b) + 1):
            for tid in tids:
                out.append('dec %d %d %s %d -1 %s C,P,PX,K1,K3,K16' % (k * 10 + tid, tid, t, TID[t], bytes(b[:c]).hex() or '-'))
            k += 1
    return out


class CutGen(streams.Gen):
    """streams in which one enclosing length ends inside a token of its content; the bytes of the token follow"""
    cut = 0

    def body_len(s, b):
        if s.cut and b and s.r.random() < 0.5:
            s.cut = 0
            return s.length(len(b) - s.r.randint(1, min(len(b), s.r.choice([1, 1, 2, 3, 10])))) + b
        return super().body_len(b)


def limit_lines(ctx, tids, n):
    g = CutGen(ctx.rng.getrandbits(60), unknown=0.3)
    out, k = [], 0
    types = [t for t in ALL if any(f.type in ('msg', 'map') or f.card == 'repeated' for f in g.members(t))]
    while k < n:
        t = g.r.choice(types)
        g.cut = 1
        b = g.msg(t)
        if g.cut or len(b) > 90:
            continue
        b += [x for _ in range(g.r.choice([0, 0, 1, 2])) for x in g.unknown_tok(t, 3)]
        m = len(b)
        f = 'C,P,XA' if m <= 56 else 'C,P,' + ','.join('X%d' % g.r.randint(0, m) for _ in range(30))
        f += ''.join(',Y%d.%d' % tuple(sorted((g.r.randint(0, m), g.r.randint(0, m)))) for _ in range(5))
        for tid in tids:
            out.append('dec %d %d %s %d -1 %s %s' % (k * 10 + tid, tid, t, TID[t], bytes(b).hex() or '-', f))
        k += 1
    return out


@check
def W03(ctx):
    exe = codec.driver([0, 6], ['ENC'])
    ctx.log('driver ready')
    vec = model_part(ctx, [], ALL, ctx.n(2, 3), ctx.n(16, 12), '', seed=3, malformed=False)
    seen, lines = set(), []
    for t, b, ok, v, stripped in vec:
        if ok:
            for tid, x in ((0, stripped), (6, v)):
                k = (t, tid, json.dumps(x))
                if k not in seen:
                    seen.add(k)
                    lines.append('enc %d %d %s %d %s V,S,c5' % (len(lines), tid, S.ORDER[t - 1], t, values.text(x)))
    cap = ctx.n(4000, 60000)
    if len(lines) > cap:
        lines = ctx.rng.sample(lines, cap)
    trace_part(ctx, 'model values', exe, lines)
    trace_part(ctx, 'values', exe, enc_lines(ctx, ALL, [0, 6], ctx.n(2000, 20000), 'V,V1,S,N,a=,c7'))


@check
def W04(ctx):
    exe = codec.driver([0, 6], ['DEC'])
    ctx.log('driver ready')

    def forms(g, b):
        n = len(b)
        f = ['C', 'P', 'PX', 'KA']
        if n <= 48: f.append('XA')
        else: f += ['X%d' % g.r.randint(0, n) for _ in range(12)]
        f += ['Y%d.%d' % tuple(sorted((g.r.randint(0, n), g.r.randint(0, n)))) for _ in range(6)]
        f += ['K' + '.'.join(str(g.r.choice([0, 1, 2, 3, 5, 9, 15, 16, 17, 31, 32, 33, 40])) for _ in range(g.r.randint(2, 6))) for _ in range(6)]
        return ','.join(x for x in f if not re.fullmatch(r'K[0.]+', x))
    chunk_model(ctx)
    trace_part(ctx, 'short', exe, dec_lines(ctx, ALL, [0, 6], ctx.n(1500, 15000), 0.15, forms))
    trace_part(ctx, 'long', exe, dec_lines(ctx, SCALARS + MAPS, [0, 6], ctx.n(700, 7000), 0.1, forms, prof=dict(longs=0.3, noncanon=0.15, unknown=0.1, badpack=0.03)))
    trace_part(ctx, 'unfinished packed fields', exe, dec_lines(ctx, SCALARS, [0, 6], ctx.n(300, 3000), 0, forms, prof=dict(longs=0.1, noncanon=0.1, unknown=0.05, badpack=0.6)))


def chunk_model(ctx):
    pass


@check
def W05(ctx):
    exe = codec.driver([0, 6], ['ENC'])
    ctx.log('driver ready')

    def forms(g):
        rc = lambda: '.'.join(str(g.r.choice([1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 16, 20, 33, 64])) for _ in range(g.r.randint(1, 4)))
        return ENC_FORMS + ',' + ','.join(g.r.choice('acd') + rc() + g.r.choice(['', '.L']) for _ in range(8)) + ',F-%d,P%d' % (g.r.randint(1, 9), g.r.randint(0, 40))
    trace_part(ctx, 'outputs', exe, enc_lines(ctx, ALL, [0, 6], ctx.n(1100, 11000), forms))


@check
def W06(ctx):
    exe = codec.driver([0, 5, 6], ['DEC'])
    exe2 = codec.driver([5], ['ENC'])
    ctx.log('drivers ready')
    unk = dict(unknown=0.6, noncanon=0.2)
    model_part(ctx, [(exe, 0), (exe, 5), (exe, 6)], ALL, 2, 12, 'C,P,K1,K3', seed=6, unknowns=6)
    trace_part(ctx, 'unknown', exe, dec_lines(ctx, ALL, [0, 5, 6], ctx.n(2500, 25000), 0.05, 'C,P,K1,K3,K0.1.5,K17,K33', prof=unk, pre=0.1))
    trace_part(ctx, 'written back', exe2, enc_lines(ctx, ALL, [5], ctx.n(1500, 15000), 'V,N,c7,c30.L,P3'))


@check
def W07(ctx):
    import nest
    exe = codec.driver([0, 6], ['DECLIM'])
    ctx.log('driver ready')
    lines = []
    roots = [t for t in ALL if t in nest.EDGES]
    deft = {t: (lambda t=t: default_value(t)) for t in S.ORDER}
    for i in range(ctx.n(2600, 26000)):
        nn = nest.Nest(ctx.rng.getrandbits(60))
        t = nn.r.choice(['N3', 'N3', 'G2', 'U3', 'M3'] + roots)
        lim = nn.r.choice([0, 1, 2, 3, 5, 8, 30] + ([1000] if i % 8 == 0 else []))
        base = 100 if lim == 1000 else lim
        tot = max(0, base + nn.r.choice([-3, -2, -1, 0, 0, 1, 1, 2]))
        unk = nn.r.choice([0, 0, 1, 2, tot // 2, tot])
        if i % 2:
            b = nn.stream(t, max(0, tot - unk), min(unk, tot))
            for tid in (0, 6):
                lines.append('dec %d %d %s %d %d %s C,P,K1,K3,K17' % (i * 10 + tid, tid, t, TID[t], lim, bytes(b).hex() or '-'))
        else:
            v = values.text(nn.value(t, tot, default_value))
            for tid in (0, 6):
                lines.append('enl %d %d %s %d %d %s' % (i * 10 + tid, tid, t, TID[t], lim, v))
    trace_part(ctx, 'limits', exe, lines)
    hostile(ctx, exe)


def default_value(t):
    out = []
    for f in S.M_[t].fields:
        if f.card in ('implicit', 'required'):
            if f.type in ('msg', 'group'): out.append(default_value(f.sub))
            elif f.card == 'required' and f.default: out.append(list(f.default[1]))
            elif f.type == 'enum' and f.card == 'required': out.append(S.le(S.enums[f.sub].vals[0][1], 4))
            elif f.type in ('string', 'bytes'): out.append([])
            else: out.append([0] * S.SIZE[f.type])
        else:
            out.append([])
    return out + [[]]


def hostile(ctx, exe):
    """depths far beyond the limit must be refused without exhausting the stack"""
    lines, i = [], 0
    for depth in (1000, 50000):
        n = depth
        body = []
        deep = {'N3': None, 'G2': bytes([0x1a, 0]), 'unk': None}
        msg = b''
        for _ in range(depth):
            k = b''
            m = len(msg)
            while m > 127:
                k += bytes([m & 127 | 128])
                m >>= 7
            msg = b'\x12' + k + bytes([m]) + msg if depth < 2000 else msg
        forms = 'C,P,K1000'
        if msg:
            lines.append('dec %d 0 N3 %d 1000 %s %s' % (i, TID['N3'], msg.hex(), forms)); i += 1
        for t, open_ in (('G2', b'\x0b'), ('N3', b'\xc3\x02'), ('L2', b'\xc3\x02'), ('U2', b'\x1b')):
            for tid in (0, 6):
                lines.append('dec %d %d %s %d 1000 %s %s' % (i, tid, t, TID[t], (open_ * n).hex(), forms)); i += 1
    sent = 0
    for l in lines:
        rc, out, err, cul = fw.run_lines(exe, [l], timeout=120)
        if rc:
            ctx.violation('hostile nesting: %s (%s...)' % (fw.crash_text(rc, err), l[:60]), dict(line=l[:5000]))
            continue
        e = json.loads(out)
        sent += 1
        if any(x[0] != 0 for x in e['res']):
            ctx.violation('nesting far beyond the limit was accepted: %s...' % l[:60], dict(line=l[:5000], recorded=e['res']))
    ctx.part('hostile', calls=sent)


@check
def W08(ctx):
    exe = codec.driver([0, 6], ['DEC'])
    ctx.log('driver ready')
    isenum = lambda f: f.type == 'enum' or f.card == 'map' and f.val.type == 'enum'
    types = [t for t in ALL if any(isenum(a) for f in S.M_[t].fields for a in (f.alts or [f]))]
    model_part(ctx, [(exe, 0), (exe, 6)], types, ctx.n(2, 3), ctx.n(30, 16), 'C,P,K1,K2', seed=8, fields=isenum, per_field=6)
    lines = dec_lines(ctx, types, [0, 6], ctx.n(4000, 40000), 0.03, DFORMS, pre=0.3, gen=EnumGen(ctx.rng.getrandbits(60)))
    trace_part(ctx, 'enums', exe, lines)


class FieldGen(streams.Gen):
    """streams that mostly use the fields chosen by pick"""

    def __init__(s, seed, pick, **kw):
        super().__init__(seed, **kw)
        s.pick = pick

    def members(s, t):
        m = super().members(t)
        x = [f for f in m if s.pick(f)]
        return x if x and s.r.random() < 0.85 else m


def EnumGen(seed):
    return FieldGen(seed, lambda f: f.type == 'enum' or f.card == 'map' and f.val.type == 'enum', unknown=0.08)


@check
def W09(ctx):
    exe = codec.driver([0, 1, 6], ['DEC'])
    exe2 = codec.driver([0], ['ENC'], groups=[2, 3, 6])
    ctx.log('drivers ready')
    ismap = lambda f: f.card == 'map'
    model_part(ctx, [(exe, 0), (exe, 1), (exe, 6)], MAPS, ctx.n(2, 3), ctx.n(36, 20), 'C,P,K1,K3', seed=9, fields=ismap, per_field=5)
    g = FieldGen(ctx.rng.getrandbits(60), ismap, unknown=0.05)
    trace_part(ctx, 'entries', exe, dec_lines(ctx, MAPS, [0, 1, 6], ctx.n(3000, 30000), 0.05, 'C,P,K1,K3,K17', pre=0.3, gen=g))
    trace_part(ctx, 'written', exe2, enc_lines(ctx, MAPS, [0], ctx.n(1500, 15000), 'V,c7,N'))


@check
def W10(ctx):
    exe = codec.driver([0, 6], ['DEC'], groups=[3, 6])
    exe2 = codec.driver([0], ['ENC'], groups=[3, 6])
    ctx.log('drivers ready')
    one = lambda f: f.card == '' or f.card == 'oneof'
    model_part(ctx, [(exe, 0), (exe, 6)], ONEOFS, ctx.n(3, 4), ctx.n(22, 14), 'C,P,K1,K3', seed=10, fields=one, per_field=2, malformed=False)
    g = FieldGen(ctx.rng.getrandbits(60), one, unknown=0.08)
    trace_part(ctx, 'switches', exe, dec_lines(ctx, ONEOFS, [0, 6], ctx.n(3500, 35000), 0.05, DFORMS, pre=0.5, gen=g))
    trace_part(ctx, 'written', exe2, enc_lines(ctx, ONEOFS, [0], ctx.n(1500, 15000), 'V,c7,N'))


@check
def W11(ctx):
    exe = codec.driver([0, 2, 6, 7], ['MERGE'])
    ctx.log('driver ready')
    model_part(ctx, [], ALL, ctx.n(2, 3), ctx.n(20, 12), '', seed=11, malformed=False)
    trace_part(ctx, 'merges', exe, mrg_lines(ctx, ALL, [0, 2, 6, 7], ctx.n(1500, 15000)))


# ------------------------------------------------------------------ W12
MEMINV = ['LogOK', 'Resident', 'Disjoint', 'Quiet', 'Balance', 'ValueOK']


def mem_validate(ctx, name, events):
    w = tlc.workdir('%s-%s' % (ctx.workname, name), ['Wire', 'Utf8', 'MemTrace'], {'VtSchema.tla': S.tla_module(), 'trace.ndjson': events})
    r = tlc.run('MemTrace', 'SPECIFICATION Spec\nINVARIANTS %s\n' % ' '.join(MEMINV), w, workers=1, heap='2g', timeout=800)
    if not r.ok and not r.violated:
        raise CheckError('TLC failed on a trace (%s): %s' % (w, r.out[-1500:]))
    return r


def mem_part(ctx, exe, lines):
    t0 = time.time()
    sh = fw.shards(lines, 8)

    def one(j):
        rc, out, err, cul = fw.run_lines(exe, sh[j], timeout=700)
        if rc:
            return (rc, err, cul)
        evs = [json.loads(l) for l in out.splitlines()]
        if len(evs) != len(sh[j]):
            raise CheckError('driver answered %d of %d' % (len(evs), len(sh[j])))
        return (mem_validate(ctx, 'mem%d' % j, out), evs)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(sh))))
    n = nst = 0
    for ls, x in zip(sh, res):
        if len(x) == 3:
            crash(ctx, exe, ls, *x)
            continue
        r, evs = x
        ctx.tlc(r)
        nst += r.distinct
        n += sum(len(e['runs']) for e in evs)
        if r.violated:
            m = re.search(r'Invariant (\w+) is violated(.*)', r.out, re.S)
            i = int(re.findall(r'\bi = (\d+)', m.group(2))[-1])
            k = int(re.findall(r'\br = (\d+)', m.group(2))[-1])
            e = evs[i - 1]
            run = e['runs'][k - 1]
            line = next(l for l in ls if l.split()[1] == str(e['id']))
            rc, out, err, _ = fw.run_lines(exe, [line])
            r2 = None if rc else mem_validate(ctx, 'memagain', out)
            if not rc and not r2.violated:
                raise CheckError('a violation of %s did not repeat: %s' % (m.group(1), line[:300]))
            ctx.violation('%s: %s decoded from form %s by %s: parts %s' % (m.group(1), line.split()[3], run['form'], FAMILY[e['tid']],
                          str([q for q in run['parts'] if q[0] not in (1, 2, 3)] or run['parts'])[:300]), dict(line=line, invariant=m.group(1), run=run, rerun='echo <line> | ' + exe))
        elif len(ctx.samples) < 6:
            ctx.samples.append(dict(line=ls[len(ls) // 2][:200]))
    ctx.cov['traces_validated_against_impl'] += n
    ctx.cov['impl_calls'] += n
    ctx.part('residency', traces=n, states=nst, wall_s=round(time.time() - t0, 1))


@check
def W12(ctx):
    mtids = ctx.n([2, 4, 6, 7], [2, 3, 4, 6, 7])
    vtids = ctx.n([1], [0, 1, 5])
    exe = codec.driver(mtids, ['MEM'])
    ctx.log('driver ready')
    g = streams.Gen(ctx.rng.getrandbits(60), longs=0.15)
    lines = []
    for i in range(ctx.n(700, 8000)):
        t = g.r.choice(ALL)
        b = g.msg(t)
        if g.r.random() < 0.05:
            b = g.mutate(b)
        hx = bytes(b).hex() or '-'
        ex = ' ' + (bytes(g.msg(t)).hex() or '-') if g.r.random() < 0.3 else ''
        n = len(b)
        forms = 'C,P,K%s,X%d' % ('.'.join(str(g.r.choice([0, 1, 2, 3, 5, 9, 15, 16, 17, 31, 32, 33, 40, 60])) for _ in range(g.r.randint(1, 4))).replace('0.0', '0.7'), g.r.randint(0, n))
        for tid in mtids:
            lines.append('mem %d %d %s %d %s %s%s' % (i * 10 + tid, tid, t, TID[t], hx, re.sub(r'K0(,|$)', r'K4\1', forms), ex))
    mem_part(ctx, exe, lines)
    exe2 = codec.driver(vtids, ['DEC'])
    ctx.log('second driver ready')
    trace_part(ctx, 'values', exe2, dec_lines(ctx, ALL, vtids, ctx.n(2500, 25000), 0.05, 'C,P,K1,K3,K17,K33', pre=0.3))
