"""The frame every check runs in: seeds, tiers, violations with replay files, known findings, evidence."""
import hashlib, json, os, random, subprocess, sys, time, traceback
import build
from build import VERIF, BUILD, CheckError

KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS')


class Stop(Exception):
    """enough violations were seen"""


class Ctx:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.quick = tier == 'quick'
        s.rng = random.Random('%s/%d' % (prop, seed))
        s.t0 = time.time()
        s.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'impl_calls': 0, 'parts': []}
        s.samples = []
        s.violations = []
        s.known_hit = {}
        s.known = {}
        s.assumptions = []
        s.level = 'model_checking'
        for l in open(KNOWN) if os.path.exists(KNOWN) else []:
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                s.known[key[4:]] = what
        s.workname = '%s-%s' % (prop, tier)

    def log(s, *a):
        print('[%6.1f]' % (time.time() - s.t0), *a, flush=True)

    def n(s, quick, thorough):
        return quick if s.quick else thorough

    def part(s, name, **kw):
        s.cov['parts'].append(dict(name=name, **kw))
        s.log(name, kw)

    def tlc(s, r, what=''):
        s.cov['states'] += r.distinct
        s.cov['transitions'] += r.states

    def violation(s, what, replay, key=None):
        """what: one line; replay: JSON-able description (with everything needed to run it again)"""
        if key and key in s.known:
            s.known_hit[key] = what
            return
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        txt = json.dumps(dict(property=s.prop, what=what, key=key, **replay), indent=1)
        p = os.path.join(d, '%s-%s.json' % (s.prop, hashlib.sha256(txt.encode()).hexdigest()[:10]))
        open(p, 'w').write(txt)
        s.violations.append(dict(what=what[:600], replay=p))
        s.log('violation:', what[:1500])
        print('VIOLATION property=%s replay=%s' % (s.prop, p), flush=True)
        if len(s.violations) >= 3:
            raise Stop()

    def evidence(s):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        s.cov['samples'] = s.samples[:12]
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=s.level, coverage=s.cov, wall_s=round(time.time() - s.t0, 1),
                  assumptions=s.assumptions, violations=s.violations)
        txt = json.dumps(ev, indent=1)
        while len(txt) > 60000 and s.cov['samples']:
            s.cov['samples'].pop()
            txt = json.dumps(ev, indent=1)
        open(os.path.join(d, s.prop + '.json'), 'w').write(txt)


def main(registry):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    ctx = Ctx(a.prop, a.tier, a.seed)
    try:
        registry[a.prop](ctx)
    except Stop:
        pass
    except CheckError as e:
        ctx.log('check error:', str(e)[:4000])
        if not ctx.violations:
            print('ERROR the check could not decide: ' + str(e).splitlines()[0][:300])
            return 2
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            return 2
    for k, w in sorted(ctx.known_hit.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (ctx.prop, k, ctx.known[k]))
    for k in sorted(set(ctx.known) - set(ctx.known_hit)):
        ctx.log('note: the known finding %s was not seen in this run' % k)
    ctx.evidence()
    build.prune()
    ctx.log('violations: %d' % len(ctx.violations))
    return 1 if ctx.violations else 0


# ------------------------------------------------------------------------------------------------ running drivers
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')


def run_lines(exe, lines, timeout=300, env=None, args=()):
    """-> (rc, stdout, stderr, culprit id or None)"""
    try:
        p = subprocess.run(exe.split() + list(args), input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, env=dict(ENV, **(env or {})), errors='replace')
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = -99, (e.stdout or b'').decode(errors='replace'), (e.stderr or b'').decode(errors='replace')
    cul = None
    if rc:
        ids = [l for l in err.splitlines() if l.startswith('@')]
        cul = ids[-1][1:].strip() if ids else None
    return rc, out, err, cul


def crash_text(rc, err):
    if rc == -99:
        return 'no answer within the time limit'
    if 'DRIVER-HANG' in err:
        return 'a call did not return'
    ls = [l for l in err.splitlines() if not l.startswith('@')]
    for k in ('ERROR: AddressSanitizer', 'runtime error', 'ERROR: LeakSanitizer', 'terminate called', 'Assertion', 'what()', 'SUMMARY'):
        for l in ls:
            if k in l:
                fr = [x.strip() for x in ls if ' in ' in x and '/repo/' in x][:3]
                return (l.strip() + ' | ' + ' | '.join(fr))[:900]
    return ('exit status %d ' % rc + ' '.join(ls[-3:]))[:600]


def shards(lines, k=8, least=40):
    k = max(1, min(k, len(lines) // least))
    return [lines[i::k] for i in range(k)]
