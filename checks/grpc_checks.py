"""G01, G02, G03: gRPC adapters against spec/Wire.tla (contents), spec/Server.tla and spec/Client.tla (protocol)."""
import json, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import rpcs
import build, codec, fw, hist, streams, tlc, values, schema as S
from codec_checks import ALL, TID, CheckError, trace_part, dec_lines, enc_lines, default_value

REG = {}


def libs():
    r = subprocess.run(['pkg-config', '--libs', 'grpc++'], capture_output=True, text=True)
    if r.returncode:
        raise CheckError('no grpc++: ' + r.stderr[:300])
    return r.stdout.split()


def codec_driver(tids):
    inc = ['-I' + codec.gen_dir(), '-I' + codec.D]
    units = [(codec.D + '/grpc_tu.cpp', build.SAN + inc + ['-DTID=%d' % t, '-DGRP=%d' % g]) for t in tids for g in S.GROUPS] + [(codec.D + '/codec_main.cpp', build.SAN + inc)]
    return build.build_exe(units, [f for f in build.SAN if f.startswith('-fsan') or f.startswith('-fno-san')], libs=libs())


MODES = ['d', 'c', 'a', 'k']


def G01(ctx):
    tids = ctx.n([0, 4], [0, 3, 4, 5])
    exe = codec_driver(tids)
    ctx.log('driver ready')

    def forms(g, b):
        n = len(b)
        f = ['C'] + ['X%d' % g.r.randint(0, n) for _ in range(4)] + ['Y%d.%d' % tuple(sorted((g.r.randint(0, n), g.r.randint(0, n)))) for _ in range(3)]
        f += ['K%d' % k for k in g.r.sample(range(1, 40), 4)]
        f += ['K' + '.'.join(str(g.r.choice([1, 0, 1, 2, 3, 5, 9, 15, 16, 17, 31, 32, 33, 40])) for _ in range(g.r.randint(2, 6))) for _ in range(3)]
        return ','.join(x for x in f if x[1:].replace('.', '').strip('0') or x[0] != 'K')
    trace_part(ctx, 'read', exe, dec_lines(ctx, ALL, tids, ctx.n(900, 9000), 0.25, forms, pre=0.1))
    trace_part(ctx, 'read long', exe, dec_lines(ctx, ALL, tids, ctx.n(250, 2500), 0.1, forms, prof=dict(longs=0.3, unknown=0.1)))

    def eforms(g):
        f = [m + c + o for m in MODES for c, o in (('r', ''), ('t', 'o'), ('x', ''))]
        return ','.join(f + [g.r.choice('dak') + 's%d' % g.r.choice([1, 2, 3, 5, 7, 10, 16, 33, 100]) for _ in range(5)])
    trace_part(ctx, 'write', exe, enc_lines(ctx, ALL, tids, ctx.n(700, 7000), eforms))
    import nest
    lines = []
    for i in range(ctx.n(500, 5000)):
        nn = nest.Nest(ctx.rng.getrandbits(60))
        t = nn.r.choice(['N3', 'G2', 'U3'])
        lim = nn.r.choice([0, 1, 2, 3, 5, 30] + ([1000] if i % 8 == 0 else []))
        tot = max(0, (100 if lim == 1000 else lim) + nn.r.choice([-2, -1, 0, 0, 1, 1, 2]))
        unk = nn.r.choice([0, 0, 1, tot])
        tid = nn.r.choice(tids)
        if i % 2:
            lines.append('dec %d %d %s %d %d %s C,K1,K3,K17,X2' % (i, tid, t, TID[t], lim, bytes(nn.stream(t, max(0, tot - unk), min(unk, tot))).hex() or '-'))
        else:
            lines.append('enl %d %d %s %d %d %s' % (i, tid, t, TID[t], lim, values.text(nn.value(t, tot, default_value))))
    trace_part(ctx, 'limits', exe, lines)



TSAN = ['-O1', '-g', '-fsanitize=thread', '-Wno-error']


def driver(src, san=None):
    # (vptr: CallbackService's constructor names its derived service before that is constructed, only to keep the reference)
    fl = (san or build.SAN) + ([] if san else ['-fno-sanitize=vptr']) + ['-I' + rpcs.gen_dir(), '-I' + codec.D]
    return build.build_exe([(codec.D + '/' + src, fl)], [f for f in fl if f.startswith('-fsan') or f.startswith('-fno-san')], libs=libs())


KIND = ['unary', 'client streaming', 'server streaming', 'bidirectional']


def ev_text(e):
    return '%s:%s:%d' % (e['e'], '.'.join(e['acts']) or '-', 1 if e['ret'] else 0)


def story(k, full, path):
    return '%s call, handler %s: %s' % (KIND[k], 'with every callback' if full else 'with the required callbacks only',
                                        ', '.join(e['e'] + ('(' + ','.join(e['acts']) + ')' if e['acts'] else '') + ('' if e['ret'] else ' -> false') for e in path))


def drive(ctx, exe, lines, what):
    """-> {id: record}; a crash is a violation (of the line that crashes alone)"""
    sh = fw.shards(lines)
    out = {}
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda x: fw.run_lines(exe, x, timeout=700), sh))
    for ls, (rc, o, err, cul) in zip(sh, res):
        for l in o.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            out[d['id']] = d
        if rc:
            ln = next((l for l in ls if l.split()[1] == cul), ls[-1])
            rc1, _, err1, _ = fw.run_lines(exe, [ln])
            ctx.violation('%s: %s' % (fw.crash_text(rc1 or rc, err1 if rc1 else err), what(ln)), dict(line=ln, driver=exe, stderr=(err1 if rc1 else err)[-6000:]))
    ctx.cov['impl_calls'] += len(lines)
    return out


def server_trace(ctx, name, recs):
    w = tlc.workdir('%s-%s' % (ctx.workname, name), ['Server', 'ServerTrace'], {'trace.ndjson': ''.join(json.dumps(r) + '\n' for r in recs)})
    r = tlc.run('ServerTrace', 'SPECIFICATION Spec\nINVARIANTS Correct Conforms Races\nCHECK_DEADLOCK FALSE\n', w, heap='3g', workers=4)
    if not r.ok and not r.violated:
        raise CheckError('TLC failed on a trace (%s): %s' % (w, r.out[-1500:]))
    ctx.tlc(r)
    ctx.cov['traces_validated_against_impl'] += len(recs)
    return r


class Caller:
    """random histories of one call: the environment and a handler that keeps to the rules"""
    GOOD = ['W0', 'W1', 'W2', 'W3', 'W4', 'W7']

    def __init__(c, r, k, full):
        c.r, c.k, c.full = r, k, full
        c.ro = c.wo = c.hro = c.hwo = c.hfin = c.eof = c.fin = c.canc = c.meta = c.dn = False
        c.born = False

    def acts(c):
        out = []
        for _ in range(c.r.choice([0, 1, 1, 1, 2, 2, 3])):
            al = []
            if not c.hfin:
                rd, wr = c.k in (1, 3), c.k in (2, 3)
                if rd and not c.hro and not c.eof: al += ['R'] * 8
                if wr and not c.hwo: al += c.GOOD + ['W5', 'W6']
                if c.r.random() < 0.2:
                    al += ['F0', 'F5']
                    if not (wr and c.hwo): al += ['G0', 'G1', 'Gb', 'Y0', 'Y5'] + ([['G2', 'G3', 'Gc'], [], ['G4', 'G5', 'G6', 'G7', 'Gd'], ['G4', 'G5', 'G6', 'G7', 'Gd']][c.k])
            if not al: break
            a = c.r.choice(al)
            out.append(a)
            if a == 'R':
                c.hro = True
                if not c.fin: c.ro = True
            elif a[0] == 'W':
                c.hwo = True
                if not c.fin:
                    if a in c.GOOD: c.wo = True
                    else: c.fin = True
            else:
                c.hfin = c.fin = True
        return out

    def event(c):
        if not c.born:
            c.born = True
            return dict(e='ctor', acts=c.acts(), ret=True)
        opts = []
        if c.ro: opts += ['rok'] * 6 + ['rfail'] * (3 if c.canc else 1)
        if c.wo: opts += ['wok'] * 6 + ['wfail'] * (3 if c.canc else 1)
        if not c.canc: opts += ['cancel']
        if not c.meta: opts += ['meta']
        opts += ['later'] * 2
        if c.fin and not c.ro and not c.wo: opts += ['done'] * 3
        e = c.r.choice(opts)
        ret = c.r.random() < 0.4 or e not in ('rfail', 'wfail', 'meta')
        if e in ('rok', 'rfail'): c.ro = c.hro = False
        if e in ('wok', 'wfail'): c.wo = c.hwo = False
        if e == 'rfail': c.eof = True
        if e == 'cancel': c.canc = True
        if e == 'meta': c.meta = True
        if e == 'done': c.dn = True
        silent = e in ('meta', 'done') or (not c.full and e in ('rfail', 'wfail', 'cancel'))
        v = dict(e=e, acts=[] if silent else c.acts(), ret=ret)
        if e in ('rfail', 'wfail') and (not c.full or not ret): c.fin = True
        return v


def G02(ctx):
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(driver, 'grpc_server.cpp'), ex.submit(driver, 'grpc_server.cpp', TSAN)
        exe, tsan = a.result(), b.result()
    ctx.log('drivers ready')
    t0 = time.time()
    cfg = 'SPECIFICATION Spec\nCONSTANTS Wide=%s\nVIEW View\nINVARIANTS FinishedOnce NothingAfter OverOnlyWhenFinished\nPROPERTY FallbackEnds\nCHECK_DEADLOCK FALSE\n' % ctx.n('FALSE', 'TRUE')
    r, vec = hist.explore(ctx, 'MCServer', ['Server', 'MCServer'], cfg)
    lines = ['call %d %d %d %s' % (i, k, full, ' '.join(ev_text(e) for e in path)) for i, (k, full, path) in enumerate(vec)]
    what = lambda l: story(int(l.split()[2]), l.split()[3] == '1', [dict(e=x.split(':')[0], acts=[] if x.split(':')[1] == '-' else x.split(':')[1].split('.'), ret=x[-1] == '1') for x in l.split()[4:] if ':' in x])
    out = drive(ctx, exe, lines, what)
    for i, (k, full, path) in enumerate(vec):
        d = out.get(i)
        if d is None: continue
        got, want = [e['log'] for e in d['ev']], [e['log'] for e in path]
        if got != want:
            j = next(x for x in range(len(want)) if got[x] != want[x])
            ctx.violation('%s: the last event gives %s, not %s' % (story(k, full, path[:j + 1]), got[j], want[j]), dict(line=lines[i], got=got, want=want, driver=exe))
    ctx.cov['behaviours_replayed'] = ctx.cov.get('behaviours_replayed', 0) + len(vec)
    ctx.part('every transition', states=r.distinct, calls=len(vec), wall_s=round(time.time() - t0, 1))
    ctx.samples.append(story(*vec[len(vec) // 2]))
    # long random histories
    t0 = time.time()
    lines = []
    for i in range(ctx.n(3000, 60000)):
        c = Caller(ctx.rng, ctx.rng.choice([0, 1, 2, 2, 3, 3, 3]), ctx.rng.random() < 0.7)
        evs = []
        while not c.dn and len(evs) < ctx.rng.choice([8, 20, 40]):
            evs.append(c.event())
        lines.append('call %d %d %d %s' % (i, c.k, c.full, ' '.join(map(ev_text, evs))))
    out = drive(ctx, exe, lines, what)
    recs = [out[i] for i in sorted(out)]
    r = server_trace(ctx, 'hist', recs)
    if r.violated:
        bad_record(ctx, r, recs)
    ctx.part('histories', calls=len(recs), events=sum(len(x['ev']) for x in recs), states=r.distinct, wall_s=round(time.time() - t0, 1))
    races(ctx, tsan, vec, what)


def bad_record(ctx, r, recs):
    import re
    m = re.search(r'Invariant (\w+) is violated(.*)', r.out, re.S)
    i, j = (int(re.findall(r'\b%s = (\d+)' % v, m.group(2))[-1]) for v in 'ij')
    if m.group(1) == 'Correct':
        raise CheckError('the driver broke the rules: %s' % recs[i - 1])
    d = recs[i - 1]
    ctx.violation('%s: %s' % (m.group(1), story(d['k'], d['full'], d['ev'][:j]) + (' gives %s' % d['ev'][j - 1]['log'] if d['op'] == 'call' else ' and then %s at once with %s: finished %d to %d times' % (ev_text(d['a']), ev_text(d['b']), d['min'], d['max']))),
                  dict(recorded=d, tlc=r.out[-4000:]))


def races(ctx, tsan, vec, what):
    """two events of one call at the same time"""
    t0 = time.time()
    r = ctx.rng
    cand = {}
    for k, full, path in vec:
        if not path or path[-1]['e'] in ('ctor', 'done', 'meta') or k == 0 and path[-1]['e'] == 'cancel': continue
        cand.setdefault((k, full, json.dumps(path[:-1])), []).append(path[-1])
    keys = sorted(cand)
    r.shuffle(keys)
    lines = []
    for key in keys:
        k, full, pre = key[0], key[1], json.loads(key[2])
        by = {}
        for e in cand[key]: by.setdefault({'rok': 'r', 'rfail': 'r', 'wok': 'w', 'wfail': 'w', 'cancel': 'c', 'later': 'l'}[e['e']], []).append(e)
        pairs = [p for p in (('r', 'w'), ('c', 'r'), ('c', 'w'), ('l', 'r'), ('l', 'w')) if p[0] in by and p[1] in by]
        for x, y in pairs:
            for _ in range(3):
                a, b = r.choice(by[x]), r.choice(by[y])
                # two callbacks of a correct handler agree on what is outstanding and on who finishes
                use = [q[0] if q != 'R' else q for q in a['acts'] + b['acts']]
                if use.count('R') > 1 or sum(q in 'WG' or q == 'Y' for q in use) > 1 or sum(q in 'FGY' for q in use) > 1: continue
                if (any(q in 'GY' for q in use) and k in (2, 3)) or 'l' in (x, y) and not a['acts'] + b['acts']: continue
                lines.append('race %d %d %d %d %s | %s | %s' % (len(lines), k, full, ctx.n(60, 400), ' '.join(map(ev_text, pre)), ev_text(a), ev_text(b)))
        if len(lines) > ctx.n(240, 3000): break
    out = drive(ctx, tsan, lines, what)
    recs = [out[i] for i in sorted(out)]
    rr = server_trace(ctx, 'race', recs)
    if rr.violated:
        bad_record(ctx, rr, recs)
    ctx.part('races', pairs=len(recs), rounds=ctx.n(60, 400), wall_s=round(time.time() - t0, 1))


def rpc_text(p, mode):
    b = lambda v: ''.join(map(str, v)) or '-'
    return '%s call by %s, requests %s, server reads %d, answers %s, ends with %s%s' % (KIND[p['k']], dict(c='call()', a='async_call() with a function', r='a reactor', m='a reactor (other overloads)')[mode],
            b(p['reqs']), p['rd'], b(p['wr']), p['end'], ', method not handled' if p['absent'] else '')


def G03(ctx):
    exe = driver('grpc_client.cpp')
    ctx.log('driver ready')
    t0 = time.time()
    r, vec = hist.explore(ctx, 'MCRpc', ['Rpc', 'MCRpc'], 'SPECIFICATION Spec\nCONSTANTS N=%d\nINVARIANTS Deterministic Vec\nPROPERTY Ends1\nCHECK_DEADLOCK FALSE\n' % ctx.n(2, 3))
    ctx.part('interleavings', states=r.distinct, programs=len(vec), wall_s=round(time.time() - t0, 1))
    todo = []
    rnd = ctx.rng
    for p, o in vec:
        for mode in 'rm' if p['k'] else 'carm':
            todo.append((p, mode, 0))
    ends = {0: ['G0', 'G1', 'G3', 'Y0', 'F5', 'Y5', 'G2', 'Yx', 'Gb'], 1: ['G0', 'G1', 'Y0', 'F5', 'Y5', 'Yx', 'Gb'],
            2: ['G0', 'G1', 'G4', 'G6', 'Y0', 'F0', 'F5', 'Y5', 'G5', 'Yx', 'Gb']}
    for _ in range(ctx.n(700, 20000)):
        k = rnd.randint(0, 3)
        bits = lambda n: [1 if rnd.random() < 0.93 else 0 for _ in range(rnd.randint(0, n))]
        p = dict(k=k, absent=False, reqs=[1] if k in (0, 2) else bits(9), rd=0 if k in (0, 2) else rnd.choice([99, 99, rnd.randint(0, 9)]), wr=bits(9) if k in (2, 3) else [], end=rnd.choice(ends[min(k, 2)]))
        todo.append((p, rnd.choice('rm' if k else 'carm'), rnd.choice([0, 0, 0, 0, 700, 5000, 70000, 1100000])))
    rnd.shuffle(todo)
    b = lambda v: ''.join(map(str, v)) or '-'
    lines = ['rpc %d %d %s %s %d %s %s %d %d' % (i, p['k'], m, b(p['reqs']), rnd.randint(0, 1) if p['k'] == 0 and m in 'ca' else p['rd'], b(p['wr']), p['end'], bulk, p['absent']) for i, (p, m, bulk) in enumerate(todo)]
    t0 = time.time()
    out = drive(ctx, exe, lines, lambda l: rpc_text(*todo[int(l.split()[1])][:2]))
    recs = [dict(p=todo[i][0], mode=todo[i][1], **out[i]) for i in sorted(out)]
    w = tlc.workdir('%s-rpc' % ctx.workname, ['Rpc', 'RpcTrace'], {'trace.ndjson': ''.join(json.dumps(x) + '\n' for x in recs)})
    r = tlc.run('RpcTrace', 'SPECIFICATION Spec\nINVARIANTS Once SameStatus SameReplies SameRequests SameWrites ServerOver\nCHECK_DEADLOCK FALSE\n', w, heap='3g', workers=4)
    if not r.ok and not r.violated:
        raise CheckError('TLC failed on a trace (%s): %s' % (w, r.out[-1500:]))
    ctx.tlc(r)
    ctx.cov['traces_validated_against_impl'] += len(recs)
    if r.violated:
        import re
        m = re.search(r'Invariant (\w+) is violated(.*)', r.out, re.S)
        x = recs[int(re.findall(r'\bi = (\d+)', m.group(2))[0]) - 1]
        ctx.violation('%s: %s: the client ends with %s after replies %s, the server saw %s, writes %s' % (m.group(1), rpc_text(x['p'], x['mode']), x['stats'], x['got'], x['sgot'], x['wres']), dict(recorded=x, line=lines[x['id']], driver=exe))
    ctx.samples.append(rpc_text(*todo[0][:2]))
    ctx.part('calls', calls=len(recs), states=r.distinct, wall_s=round(time.time() - t0, 1))


REG['G01'] = G01
REG['G03'] = G03
REG['G02'] = G02
