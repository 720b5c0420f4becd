"""C01 (flat_map) and C02 (optional / indirect holders): histories against spec/FlatMap.tla and spec/Holder.tla."""
import os
import build, fw, hist

REG = {}


def check(f):
    REG[f.__name__] = f
    return f


def flatmap_exe():
    return build.build_exe([(build.VERIF + '/drivers/flatmap.cpp', build.SAN + ['-D_GLIBCXX_ASSERTIONS'])], ['-fsanitize=address,undefined'])


MAPS = ('std', 'pmr', 'descending', 'deque')


def flat_histories(ctx, n, steps):
    r = ctx.rng
    out = []
    for i in range(n):
        ty = i % 5
        kmax = r.choice((3, 8, 30))
        size = len(init := [])
        keys = set()
        ops = []

        def ks():
            return r.choice(sorted(keys)) if keys and r.random() < 0.5 else r.randrange(kmax)

        def plist(m, srt=False):
            d = [[r.randrange(kmax), r.randrange(5)] for _ in range(r.randrange(m))]
            return sorted({k: [k, v] for k, v in d}.values()) if srt else d
        for _ in range(steps):
            n_ = len(keys)
            k, v = ks(), r.randrange(5)
            p = r.randrange(n_ + 1)
            c = r.choice(['emplace', 'emplace_h', 'try', 'try_d', 'try_h', 'ioa', 'ioa', 'ioa_h', 'ioa_h', 'idx', 'set', 'at', 'find', 'lb', 'ub', 'er', 'count', 'erase_k', 'erase_k', 'erase_p',
                          'erase_r', 'ins_r', 'ins_s', 'assign_il', 'clear', 'size', 'iter', 'extract', 'replace', 'reserve', 'ctor_s', 'copy', 'copy', 'swap', 'cmp',
                          'bomb_try', 'bomb_ioa', 'bomb_h', 'alias_try', 'alias_ioa'])
            if c in ('clear', 'extract', 'assign_il', 'replace', 'ctor_s') and r.random() < 0.7:
                c = 'ins_r'
            f = r.randrange(2)
            if c in ('emplace',): op, new = [c, r.randrange(5), k, v], {k}
            elif c in ('emplace_h',): op, new = [c, r.randrange(4), p, k, v], {k}
            elif c in ('try', 'set'): op, new = [c, f, k, v], {k}
            elif c == 'ioa': op, new = [c, r.randrange(4), k, v], {k}
            elif c in ('try_h', 'ioa_h'): op, new = [c, f, p, k, v], {k}
            elif c in ('try_d', 'idx'): op, new = [c, f, k], {k}
            elif c in ('at', 'bomb_try', 'bomb_ioa'): op, new = [c, f, k], set()
            elif c == 'bomb_h': op, new = [c, f, p, k], set()
            elif c in ('find', 'lb', 'ub', 'er', 'count'): op, new = [c, r.randrange(4), k], set()
            elif c == 'erase_k':
                op, new = [c, k], set()
                keys.discard(k)
            elif c == 'erase_p':
                if not n_: continue
                p = r.randrange(n_)
                op, new = [c, f, p], set()
                keys.discard(sorted(keys)[p])
            elif c == 'erase_r':
                a, b = sorted((r.randrange(n_ + 1), r.randrange(n_ + 1)))
                if b - a > 3: b = a + 3
                op, new = [c, a, b], set()
                keys -= set(sorted(keys)[a:b])
            elif c == 'ins_r':
                l = plist(6 if f else 12)
                op, new = [c, f, l], {x[0] for x in l}
            elif c == 'ins_s':
                l = plist(6 if f else 12, True)
                op, new = [c, f, l], {x[0] for x in l}
            elif c in ('assign_il', 'replace', 'ctor_s'):
                l = plist(6, c != 'assign_il')
                op, new = [c, 0 if c != 'ctor_s' else r.randrange(5), l], {x[0] for x in l}
                keys = set()
            elif c in ('clear', 'extract'):
                op, new = [c], set()
                keys = set()
            elif c == 'size': op, new = [c], set()
            elif c == 'iter': op, new = [c, r.randrange(6)], set()
            elif c == 'reserve': op, new = [c, r.randrange(40)], set()
            elif c == 'copy': op, new = [c, r.randrange(7)], set()
            elif c == 'swap':
                l = plist(8, True)
                op, new = [c, f, l], {x[0] for x in l}
                keys = set()
            elif c == 'cmp':
                if ty == 2: continue
                op, new = [c, 0, plist(8, True)], set()
            elif c in ('alias_try', 'alias_ioa'):
                if not n_: continue
                op, new = [c, r.randrange(n_), k], {k}
            if c.startswith('bomb') and ty == 3: continue
            keys = keys | new
            ops.append(op)
        out.append((i, '%d %d [] %s' % (i, ty, ';'.join(hist.txt(o) for o in ops)), (ty, ops)))
    return out


def flat_record(meta, d):
    return dict(ty=meta[0], init=[], ev=[dict(op=o, ret=e['ret'], post=e['post'], res=e['res']) for o, e in zip(meta[1], d['ev'])])


@check
def C01(ctx):
    exe = flatmap_exe()
    ctx.log('driver ready')
    cfg = 'SPECIFICATION Spec\nCONSTANTS KMax=%d\nVMax=%d\nL=%d\nExport=TRUE\nINVARIANTS Laws Vec\n' % ((2, 1, 2) if ctx.quick else (3, 1, 2))
    r, vec = hist.explore(ctx, 'MCFlatMap', ['FlatMap', 'MCFlatMap'], cfg)
    ctx.part('model', states=r.distinct, wall_s=round(r.wall, 1))
    cases = []
    for i, (m, op, allowed) in enumerate(vec):
        for ty in range(5):
            if op[0] == 'cmp' and ty == 2 or op[0].startswith('bomb') and ty == 3:
                continue
            cases.append(('%d %d %s %s' % (len(cases), ty, hist.pairs(m), hist.txt(op)), allowed))
    hist.replay(ctx, 'every map, every operation', exe, cases)
    hist.traces(ctx, 'long histories', exe, 'FlatMapTrace', ['FlatMap', 'FlatMapTrace'], 'IsDictionary Conforms',
                flat_histories(ctx, ctx.n(160, 3000), ctx.n(60, 120)), flat_record)


def holder_exe():
    return build.build_exe([(build.VERIF + '/drivers/holder.cpp', build.SAN + ['-D_GLIBCXX_ASSERTIONS'])], ['-fsanitize=address,undefined'])


HOLDERS = {'C': (0, 1, 9), 'I': (2, 3, 10), 'O': (4, 5, 6, 7, 8)}
VIEW = {'set', 'ctor', 'copy', 'move', 'swap', 'cctor', 'mctor', 'get', 'eq', 'reset', 'null', 'has', 'eqn', 'mon'}


def holder_ok(ty, op, st=None):
    a = op[0]
    if ty == 9 and a not in VIEW or ty == 10 and a not in VIEW - {'null', 'has', 'eqn', 'mon'} | {'cmp', 'eqv'}:
        return False
    if ty in (9, 10) and st and any(len(x) > 1 for x in st):
        return False
    if ty in (6, 8):
        if a in ('null', 'valor', 'deref', 'std') or a in ('set', 'ctor', 'emplace') and op[2] > 1:
            return False
        if a == 'emplace0' and op[2] != 0:
            return False
        if st and any(x == [0, 1] or len(x) == 2 and x[1] > 1 for x in st):
            return False
    if a == 'emplace0' and ty in (4, 5) and op[2] != 5 or a == 'emplace0' and ty == 7 and op[2] != 0:
        return False
    return True


def holder_init(st):
    return ':' + '/'.join(','.join(map(str, x)) for x in st)


def holder_histories(ctx, n, steps):
    r = ctx.rng
    out = []
    for i in range(n):
        fam = 'CCIIO'[i % 5]
        ty = r.choice(HOLDERS[fam])
        ops = []
        names = {'C': 'set ctor copy copy move move swap cctor mctor get eq deep push push eqv bomb bombc reset null pop pop popc has eqn emplace emplace0 splice splice mon orelse',
                 'I': 'set ctor copy move swap cctor mctor get eq deep push push eqv bomb bombc cmp',
                 'O': 'set ctor copy move swap cctor mctor get eq reset null has emplace valor deref emplace0 std'}[fam].split()
        while len(ops) < steps:
            a = r.choice(names)
            x, y = r.randrange(1, 4), r.randrange(1, 4)
            v = r.randrange(2 if ty in (6, 8) else 3)
            if a in ('set', 'ctor', 'emplace', 'push', 'eqv', 'valor', 'deref'): op = [a, x, v]
            elif a in ('copy', 'move', 'swap', 'eq', 'cmp', 'splice'): op = [a, x, y]
            elif a in ('cctor', 'mctor'):
                if x == y: continue
                op = [a, x, y, r.randrange(2)]
            elif a == 'get': op = [a, x, r.randrange(4)]
            elif a == 'deep': op = [a, x, r.randrange(1, 4), v]
            elif a in ('bomb', 'reset', 'null', 'pop', 'popc', 'has', 'eqn'): op = [a, x]
            elif a == 'bombc': continue
            elif a == 'emplace0': op = [a, x, 5 if ty in (4, 5) else 0]
            elif a == 'mon': op = [a, x, r.randrange(8)]
            elif a == 'orelse': op = [a, x, r.randrange(2), v]
            elif a == 'std': op = [a, x, v, r.randrange(2), r.randrange(2)]
            if holder_ok(ty, op):
                ops.append(op)
        d = {'C': [], 'I': [0], 'O': [0, 0]}[fam]
        out.append((i, '%d %d %s %s' % (i, ty, holder_init([d] * 3), ';'.join(hist.txt(o) for o in ops)), (fam, ty, d, ops)))
    return out


def holder_record(meta, d):
    return dict(fam=meta[0], ty=meta[1], init=meta[2], ev=[dict(op=o, ret=e['ret'], post=e['post'], res=e['res']) for o, e in zip(meta[3], d['ev'])])


@check
def C02(ctx):
    exe = holder_exe()
    ctx.log('driver ready')
    cases = []
    for fam in 'CIO':
        cfg = 'SPECIFICATION Spec\nCONSTANTS Fam="%s"\nVMax=%d\nExport=TRUE\nINVARIANTS Laws Vec\n' % (fam, {'C': 1, 'I': 1, 'O': 1}[fam] if ctx.quick else {'C': 1, 'I': 2, 'O': 2}[fam])
        r, vec = hist.explore(ctx, 'MCHolder', ['Holder', 'MCHolder'], cfg)
        ctx.part('model ' + fam, states=r.distinct, wall_s=round(r.wall, 1))
        for st, op, res in vec:
            for ty in HOLDERS[fam]:
                if holder_ok(ty, op, st):
                    cases.append(('%d %d %s %s' % (len(cases), ty, holder_init(st), hist.txt(op)), [res]))
    hist.replay(ctx, 'every state, every operation', exe, cases)
    hist.traces(ctx, 'long histories', exe, 'HolderTrace', ['Holder', 'HolderTrace'], 'Typed Conforms',
                holder_histories(ctx, ctx.n(200, 4000), ctx.n(60, 120)), holder_record)
