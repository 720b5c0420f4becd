"""K01: constant evaluation against the decoder and encoder machines (spec/Wire.tla, spec/CodecTrace.tla)."""
import json, os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import build, codec, consts, fw, streams, tlc, values, schema as S
from codec_checks import ALL, TID, describe, model_part, validate, bad_event, CheckError

REG = {}
NOMAP = [t for t in ALL if not consts.has_map(t)]
FL = {'clang': ['-fconstexpr-steps=67108864', '-fbracket-depth=1024', '-fconstexpr-backtrace-limit=12', '-fconstexpr-depth=100000', '-ftemplate-depth=4000'], 'gcc': ['-fconstexpr-ops-limit=67108864', '-fconstexpr-loop-limit=1048576', '-fconstexpr-depth=100000', '-ftemplate-depth=4000']}


def compile_unit(d, name, text, cc='clang', out=True):
    p = os.path.join(d, name + '.cpp')
    open(p, 'w').write(text)
    exe = os.path.join(d, name)
    cmd = [build.CLANG if cc == 'clang' else 'g++', '-w', '-O0', *FL[cc], *build.BASE, '-I' + codec.gen_dir(), '-I' + build.VERIF + '/drivers', p]
    r = subprocess.run(cmd + (['-o', exe] if out else ['-fsyntax-only']), capture_output=True, text=True, errors='replace', timeout=800)
    return r.returncode, r.stderr, exe


def case_text(c):
    return '%s %s of %s: %s' % ('decoding' if c[0] == 'dec' else 'encoding', c[3], consts.TR[c[2]], bytes(c[4]).hex() if c[0] == 'dec' else values.text(c[4]))


def malformed(ctx, name, cases):
    """the specification's decoder tells which inputs are malformed"""
    evs = ''.join(json.dumps(dict(id=i, op='dec', tid=c[2], ty=S.ORDER.index(c[3]) + 1, keep=consts.KEEP(c[2]), lim=100, b=list(c[4]), res=[], forms=[])) + '\n' for i, c in enumerate(cases))
    if not evs:
        return []
    mod = '---- MODULE CodecClass ----\nEXTENDS CodecTrace\nReport == s.status = "run" \\/ PrintT("CLS " \\o ToString(i) \\o " " \\o s.status)\n====\n'
    w = tlc.workdir('%s-cls-%s' % (ctx.workname, name), ['Wire', 'Utf8', 'CodecTrace'], {'VtSchema.tla': S.tla_module(), 'trace.ndjson': evs, 'CodecClass.tla': mod})
    r = tlc.run('CodecClass', 'SPECIFICATION Spec\nINVARIANTS Report\n', w, workers=8, heap='2g', timeout=800)
    got = dict((int(a) - 1, b) for a, b in re.findall(r'"CLS (\d+) (\w+)"', r.out))
    if not r.ok or len(got) != len(cases):
        raise CheckError('classifying failed: ' + r.out[-1500:])
    return [got[i] != 'ok' for i in range(len(cases))]


def run_units(ctx, name, units, ccs=None):
    """units: lists of cases"""
    t0 = time.time()
    d = os.path.join(build.BUILD, 'const-%s-%s' % (ctx.workname, name))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ncases = nst = 0
    every = [(k, c) for k, u in enumerate(units) for c in u if c[0] == 'dec']
    mal = {(k, c[1]) for (k, c), m in zip(every, malformed(ctx, name, [c for _, c in every])) if m}
    # malformed inputs are kept together, after the others: they may have to be taken out again
    units = [[c for c in u if (k, c[1]) not in mal] for k, u in enumerate(units)]
    bads = [c for k, c in every if (k, c[1]) in mal][:ctx.n(6, 40)]
    if bads:
        units.append([('dec', j, *c[2:]) for j, c in enumerate(bads)])
        mal = {(len(units) - 1, j) for j in range(len(bads))}
    else:
        mal = set()

    def one(k):
        while True:
            rc, err, exe = compile_unit(d, 'u%d' % k, consts.unit(units[k]), (ccs or {}).get(k, 'clang'))
            if not rc:
                break
            # a compiler may refuse to decode what is malformed
            ids = {int(x) for x in re.findall(r'^dec:(\d+):', err, re.M)}
            bad = {i for i in ids if (k, i) in mal}
            if not bad or len(bad) < len(ids):
                return k, rc, err, None
            units[k] = [c for c in units[k] if c[1] not in bad]
        r = subprocess.run([exe], capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise CheckError('the program of constants ended with %d: %s' % (r.returncode, r.stderr[-500:]))
        return k, 0, '', r.stdout
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(units))))

    def judge(x):
        return validate(ctx, '%s-%d' % (name, x[0]), x[3]) if x[1] == 0 else None
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(judge, res))
    for (k, rc, err, out), r in zip(res, rs):
        byid = {c[1]: c for c in units[k]}
        if rc:
            ids = []
            for m in re.finditer(r'^(?:dec|enc):(\d+):', err, re.M):
                if int(m.group(1)) not in ids: ids.append(int(m.group(1)))
            if not ids:
                raise CheckError('a program of constants does not compile: ' + err[:1500])
            bad = {i for i in ids if (k, i) in mal}
            for i in [i for i in ids if i not in bad][:3]:
                # alone, so that the case is to blame
                rc1, err1, _ = compile_unit(d, 'alone', consts.unit([byid[i]]), out=False)
                if not rc1:
                    continue
                why = [l for l in err1.splitlines() if 'note:' in l and ('cannot be used' in l or 'not allowed' in l or 'outside' in l or 'past' in l or 'read of' in l or 'subexpression' in l)]
                ctx.violation('%s is not a constant expression (%s)' % (case_text(byid[i]), (why or err1.splitlines() or [''])[0][:300]), dict(case=case_text(byid[i]), stderr=err1[:6000], program=consts.unit([byid[i]])))
            continue
        evs = [json.loads(l) for l in out.splitlines()]
        if len(evs) != len(units[k]):
            raise CheckError('%d of %d constants reported' % (len(evs), len(units[k])))
        ncases += len(evs)
        ctx.tlc(r)
        nst += r.distinct
        if r.violated:
            inv, e = bad_event(r, evs)
            ctx.violation('%s by constant evaluation: %s gives %s' % (inv, case_text(byid[e['id']]), str(e['res'])[:300]), dict(case=case_text(byid[e['id']]), recorded=e, tlc=r.out[-4000:], program=consts.unit([byid[e['id']]])))
        elif len(ctx.samples) < 6:
            ctx.samples.append(case_text(units[k][0])[:300])
    ctx.cov['traces_validated_against_impl'] += ncases
    ctx.cov['impl_calls'] += ncases
    ctx.part(name, programs=len(units), constants=ncases, states=nst, wall_s=round(time.time() - t0, 1))
    shutil.rmtree(d, ignore_errors=True)


def K01(ctx):
    codec.gen_dir()
    r = ctx.rng
    # everything the model does in a few tokens, evaluated by the compiler
    vec = model_part(ctx, [], ALL, 2, ctx.n(9, 14), '', seed=ctx.rng.randint(1, 9), laws=False)
    r.shuffle(vec)
    n, per = ctx.n(2, 24), 70
    for rnd in range(ctx.n(1, 12)):
        units, ccs = [], {}
        for tid in (0, 1, 5):
            for u in range(ctx.n(2, 4)):
                g = streams.Gen(r.getrandbits(60), unknown=0.2, longs=0.05)
                cs = []
                while len(cs) < per:
                    if r.random() < 0.4 and vec:
                        t, b, ok, v, st = vec.pop()
                        if not ok: continue
                        t = S.ORDER[t - 1]
                    else:
                        t = r.choice(NOMAP)
                        b = g.msg(t)[:200]
                    if t in NOMAP:
                        cs.append(('dec', len(cs), tid, t, b, r.choice('ASVP')))
                units.append(cs)
        ccs[1 + 2 * r.randint(0, 2) if ctx.quick else 3] = 'gcc'
        for tid in (4, 6):
            for u in range(ctx.n(1, 3)):
                cs = []
                vg = values.ValGen(r.getrandbits(60), keep=consts.KEEP(tid))
                while len(cs) < per:
                    if r.random() < 0.4 and vec:
                        t, b, ok, v, st = vec.pop()
                        if not ok: continue
                        t = S.ORDER[t - 1]
                        v = v if consts.KEEP(tid) else st
                    else:
                        t = r.choice(ALL)
                        v = vg.msg(t, r.choice([0, 0, 0, 5]))
                    if len(values.text(v)) < 3000:
                        cs.append(('enc', len(cs), tid, t, v))
                units.append(cs)
        run_units(ctx, 'constants%d' % rnd, units, ccs)
    limit(ctx)


def limit(ctx):
    """100 levels below the root are a constant, one level more is refused"""
    d = os.path.join(build.BUILD, 'const-%s-limit' % ctx.workname)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = consts.header() + '''using Tr = %s; using M = vt::N3<Tr>;
template <int D> constexpr M m = [] { M x{}; if constexpr (D > 1) x.child = const_cast<M *>(&m<D - 1>); return x; }();
int main() { constexpr auto b = hpp_proto::write_binpb([] { return m<DEPTH>; }); return b.size() == 0; }
''' % consts.TR[4]
    child = next((f.name for f in S.M_['N3'].fields if f.card == 'optional' and f.type == 'msg' and f.sub == 'N3'), None)
    src = src.replace('x.child', 'x.' + child)
    jobs = [(cc, dep) for cc in ('clang', 'gcc') for dep in (2, 100, 101, 102)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_unit(d, '%s%d' % j, src.replace('DEPTH', str(j[1])), j[0], out=False), jobs))
    for (cc, dep), (rc, err, _) in zip(jobs, res):
        if (rc == 0) != (dep <= 101):
            ctx.violation('a constant message of %d levels is %s (%s)' % (dep, 'encoded' if rc == 0 else 'refused', cc), dict(depth=dep, compiler=cc, program=src, stderr=err[:3000]))
    ctx.part('nesting limit', programs=len(jobs))
    shutil.rmtree(d, ignore_errors=True)


REG['K01'] = K01
