"""Histories: operations on a live object of the library, step by step against a state-machine specification.

  vectors()  a model exports every (state, operation, allowed outcomes) of a bounded domain; each is run on the real code
  traces()   long seeded histories are run on the real code and TLC re-enacts each of them with the same Apply
"""
import json, re, time
from concurrent.futures import ThreadPoolExecutor
import fw, tlc
from build import CheckError


def txt(x):
    """one operation of the model as driver text"""
    out = []
    for a in x:
        if isinstance(a, list):
            out.append('[' + ','.join(':'.join(map(str, p)) if isinstance(p, list) else str(p) for p in a) + ']')
        else:
            out.append(str(a))
    return ' '.join(out)


def pairs(m):
    return '[' + ','.join('%d:%d' % tuple(p) for p in m) + ']'


def explore(ctx, module, modules, cfg, files=None, heap='8g', workers=8, extra=()):
    w = tlc.workdir(ctx.workname + '-' + module, modules, files)
    r = tlc.run(module, cfg, w, heap=heap, workers=workers, extra=extra)
    if not r.ok:
        raise CheckError('the specification %s breaks its own laws: %s' % (module, r.out[-1500:]))
    ctx.tlc(r)
    return r, [json.loads(json.loads(l)[4:]) for l in r.out.splitlines() if l.startswith('"VEC ')]


def run(ctx, exe, lines, what, timeout=700):
    """-> {id: event list}; crashes become violations.  line = '<id> ...'"""
    res = {}
    sh = fw.shards(lines)
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(lambda x: fw.run_lines(exe, x, timeout=timeout), sh))
    for ls, (rc, o, err, cul) in zip(sh, out):
        for l in o.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            res[str(d['id'])] = d
        if rc:
            ln = next((l for l in ls if l.split()[0] == cul), None)
            if ln is None:
                raise CheckError('driver failed: ' + fw.crash_text(rc, err))
            rc1, o1, err1, _ = fw.run_lines(exe, [ln])
            if rc1:
                ctx.violation('%s: %s %s' % (fw.crash_text(rc1, err1), what, ln[:400]), dict(line=ln, stderr=err1[-6000:], driver=exe))
            else:   # only together with others (leaks at exit)
                part = ls
                while len(part) > 1:
                    half = len(part) // 2
                    for p in (part[:half], part[half:]):
                        if fw.run_lines(exe, p, timeout=timeout)[0]:
                            part = p
                            break
                    else:
                        break
                rc2, _, err2, _ = fw.run_lines(exe, part)
                if not rc2:
                    raise CheckError('a driver failure did not repeat: ' + fw.crash_text(rc, err))
                ctx.violation('%s: %s %s' % (fw.crash_text(rc2, err2), what, part[0][:400]), dict(lines=part[:20], stderr=err2[-6000:], driver=exe))
    return res


def replay(ctx, name, exe, cases, r=None):
    """cases: [(line, allowed set of (ret, post) as JSON lists)] one event each"""
    t0 = time.time()
    res = run(ctx, exe, [c[0] for c in cases], name)
    n = 0
    for line, allowed in cases:
        d = res.get(line.split()[0])
        if d is None:
            continue
        e = d['ev'][-1]
        n += 1
        if e['ret'] is None:
            continue
        if e.get('res', 1) != 1 or not any(a[0] == e['ret'] and a[1] == e['post'] for a in allowed):
            ctx.violation('%s: %s gave %s, the specification allows %s' % (name, line, json.dumps(e)[:300], json.dumps(allowed)[:300]),
                          dict(line=line, recorded=e, allowed=allowed, driver=exe))
    ctx.cov['traces_validated_against_impl'] += n
    ctx.cov['impl_calls'] += n
    if cases and len(ctx.samples) < 6:
        ctx.samples.append(dict(part=name, history=cases[len(cases) // 2][0]))
    ctx.part(name, replayed=n, wall_s=round(time.time() - t0, 1))


def traces(ctx, name, exe, module, modules, invs, hist, record, k=8, workers=1, files=None):
    """hist: [(id, line, meta)]; record(meta, driver output) -> trace record with 'ev' = list of events
    exe: a driver, or {driver: its part of hist}"""
    t0 = time.time()
    recs = []
    for x, hs in (exe.items() if isinstance(exe, dict) else [(exe, hist)]):
        res = run(ctx, x, [h[1] for h in hs], name)
        for i, line, meta in hs:
            d = res.get(str(i))
            if d is not None:
                recs.append((line, record(meta, d), x))
    chunks = [recs[j::k] for j in range(k) if recs[j::k]]

    def one(a):
        j, c = a
        w = tlc.workdir('%s-%s%d' % (ctx.workname, re.sub(r'\W', '', name), j), modules, dict(files or {}, **{'trace.ndjson': ''.join(json.dumps(x[1]) + '\n' for x in c)}))
        return c, w, tlc.run(module, 'SPECIFICATION Spec\nINVARIANTS %s\n' % invs, w, workers=workers, heap='2g', timeout=700)
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(one, enumerate(chunks)))
    st = ev = 0
    for c, w, r in out:
        if not r.ok and not r.violated:
            raise CheckError('TLC failed on a trace (%s): %s' % (w, r.out[-1500:]))
        ctx.tlc(r)
        st += r.distinct
        ev += sum(len(x[1]['ev']) for x in c)
        if r.violated:
            i = int(re.findall(r'\bi = (\d+)', r.out)[-1]) - 1
            j = int(re.findall(r'\bj = (\d+)', r.out)[-1]) - 1
            line, rec, x = c[i]
            e = rec['ev'][j] if 0 <= j < len(rec['ev']) else {}
            ctx.violation('%s: step %d of history %s: %s is not allowed by %s' % (name, j + 1, line[:160], json.dumps(e)[:400], module),
                          dict(line=line, step=j + 1, event=e, before=rec['ev'][j - 1] if j > 0 else rec.get('init'), tlc=r.out[-3000:], driver=x))
    ctx.cov['traces_validated_against_impl'] += len(recs)
    ctx.cov['impl_calls'] += ev
    if recs and len(ctx.samples) < 6:
        ctx.samples.append(dict(part=name, history=recs[0][0][:400]))
    ctx.part(name, histories=len(recs), steps=ev, states=st, wall_s=round(time.time() - t0, 1))
