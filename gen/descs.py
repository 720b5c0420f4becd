"""Abstract descriptor sets (see spec/Descriptor.tla), their binary form, a generator of well-formed ones and single defects."""
import copy, struct

NOF = dict(p='', e='', r='', u='', m='')
FNUM = dict(p=(1, dict(EXPLICIT=1, IMPLICIT=2, LEGACY_REQUIRED=3)), e=(2, dict(OPEN=1, CLOSED=2)), r=(3, dict(PACKED=1, EXPANDED=2)),
            u=(4, dict(VERIFY=2, NONE=3)), m=(5, dict(LENGTH_PREFIXED=1, DELIMITED=2)))


def varint(n):
    n &= (1 << 64) - 1
    o = b''
    while n > 127:
        o += bytes([n & 127 | 128])
        n >>= 7
    return o + bytes([n])


def vi(num, n):
    return varint(num << 3) + varint(n)


def ld(num, b):
    if isinstance(b, str):
        b = b.encode('latin1')
    return varint(num << 3 | 2) + varint(len(b)) + b


def st(num, s):
    return ld(num, s) if s else b''


def feats(f):
    return b''.join(vi(FNUM[k][0], FNUM[k][1][v]) for k, v in f.items() if v)


def opts(num, fnum, f, more=b''):
    b = more + (ld(fnum, feats(f)) if any(f.values()) else b'')
    return ld(num, b) if b else b''


def b_field(f):
    b = st(1, f['name']) + st(2, f['ext']) + vi(3, f['num']) + vi(4, f['label'])
    if f['type'] is not None:
        b += vi(5, f['type'])
    b += st(6, f['tname'])
    if f['def']:
        b += ld(7, bytes(f['def']))
    if f['oneof'] != -1:
        b += vi(9, f['oneof'])
    b += st(10, f['json'])
    if f['p3']:
        b += vi(17, 1)
    return b + opts(8, 21, f['feats'], {'': b'', 'T': vi(2, 1), 'F': vi(2, 0)}[f['packed']])


def b_enum(e):
    return st(1, e['name']) + b''.join(ld(2, st(1, n) + vi(2, v)) for n, v in e['vals']) + opts(3, 7, e['feats'])


def b_msg(m):
    b = st(1, m['name']) + b''.join(ld(2, b_field(f)) for f in m['fields']) + b''.join(ld(3, b_msg(n)) for n in m['nested'])
    b += b''.join(ld(4, b_enum(e)) for e in m['enums']) + b''.join(ld(6, b_field(f)) for f in m['exts'])
    b += b''.join(ld(8, st(1, 'o%d' % i)) for i in range(m['oneofs']))
    return b + opts(7, 12, m['feats'], vi(7, 1) if m['map'] else b'')


def b_file(f):
    b = st(1, f['name']) + st(2, f['package']) + b''.join(ld(3, d) for d in f['deps']) + b''.join(ld(4, b_msg(m)) for m in f['msgs'])
    b += b''.join(ld(5, b_enum(e)) for e in f['enums']) + b''.join(ld(7, b_field(x)) for x in f['exts']) + opts(8, 50, f['feats'])
    return b + st(12, f['syntax']) + (vi(14, f['edition']) if f['edition'] else b'')


def binary(s):
    return b''.join(ld(1, b_file(f)) for f in s)


# ------------------------------------------------------------------ constructors
def field(name, num, type, label=1, tname='', oneof=-1, p3=False, packed='', feats=NOF, json='', dflt='', ext=''):
    if isinstance(dflt, str):
        dflt = dflt.encode('latin1')
    f = dict(name=name, num=num, type=type, label=label, tname=tname, oneof=oneof, p3=p3, packed=packed, feats=dict(feats), json=json, ext=ext)
    return set_default(f, bytes(dflt))


def set_default(f, b):
    f['def'] = list(b)
    f['dname'] = b.decode('latin1') if f['type'] == 14 else ''
    f['fx'] = ''
    if f['type'] in (1, 2) and b:
        f['fx'] = bits(b.decode('latin1'), f['type'])
    return f


FLOATS = {'inf', '-inf', 'nan', '0.5', '-1.5', '3', '-0', '1e+30', '2.5e-05', '1e10', '123456.75', '0'}


def bits(t, type):
    if t not in FLOATS:
        return ''
    if t == 'nan':
        return 'nan'
    v = float(t)
    return '%x' % (struct.unpack('<Q', struct.pack('<d', v))[0] if type == 1 else struct.unpack('<I', struct.pack('<f', v))[0])


def msg(name, fields=(), oneofs=0, nested=(), enums=(), exts=(), map=False, feats=NOF):
    return dict(name=name, fields=list(fields), oneofs=oneofs, nested=list(nested), enums=list(enums), exts=list(exts), map=map, feats=dict(feats))


def enum(name, vals, feats=NOF):
    return dict(name=name, vals=[list(v) for v in vals], feats=dict(feats))


def file(name, package='', syntax='proto3', edition=0, deps=(), msgs=(), enums=(), exts=(), feats=NOF):
    return dict(name=name, package=package, syntax=syntax, edition=edition, deps=list(deps), msgs=list(msgs), enums=list(enums), exts=list(exts), feats=dict(feats))


def messages(s):
    """[(full name, message)] outermost first, as the specification numbers them"""
    out = []

    def go(scope, m):
        fn = (scope + '.' if scope else '') + m['name']
        out.append((fn, m))
        for n in m['nested']:
            go(fn, n)
    for f in s:
        for m in f['msgs']:
            go(f['package'], m)
    return out


def camel(n):
    o, up = '', False
    for c in n:
        if c == '_':
            up = True
        else:
            o += c.upper() if up and c.islower() else c
            up = False
    return o


SCAL = [1, 2, 3, 4, 5, 6, 7, 8, 13, 15, 16, 17, 18]
DEFAULTS = {1: ['0.5', '-1.5', 'inf', '-inf', 'nan', '1e+30', '2.5e-05', '3', '-0'], 2: ['0.5', '-1.5', 'inf', 'nan', '1e10', '123456.75'],
            8: ['true', 'false'], 9: ['abc', 'x y', 'a\\n', ''], 12: ['abc', '\\001\\377', '\\n\\"\\\\', '\\12x', 'a\\0b', '\\x', '\\7777']}
for _t in (5, 15, 17):
    DEFAULTS[_t] = ['0', '7', '-7', '2147483647', '-2147483648', '-1']
for _t in (3, 16, 18):
    DEFAULTS[_t] = ['0', '-1', '9223372036854775807', '-9223372036854775808', '5000000000']
for _t in (7, 13):
    DEFAULTS[_t] = ['0', '1', '4294967295', '3000000000']
for _t in (4, 6):
    DEFAULTS[_t] = ['0', '18446744073709551615', '9223372036854775808']
BADDEF = {1: ['abc', '1.5x', '1e400', ' 1', '1,5'], 2: ['x', '1e39', '1.5f', '--1'], 8: ['True', '1', 'yes', 'tru', 'truex'], 14: ['NOPE', 'e0'],
          5: ['2147483648', '-2147483649', '1.5', 'x', '-', '0x10', '1 ', '99999999999999999999'], 3: ['9223372036854775808', '-9223372036854775809', '1e3', 'a'],
          13: ['4294967296', '-1', '+1', 'zz'], 4: ['18446744073709551616', '-1', '1u', '']}
for _a, _b in ((15, 5), (17, 5), (16, 3), (18, 3), (7, 13), (6, 4)):
    BADDEF[_a] = BADDEF[_b]


class DescGen:
    """a random well-formed set"""

    def __init__(s, r, size=1.0):
        s.r, s.size, s.n = r, size, 0

    def uniq(s, pre):
        s.n += 1
        return '%s%d' % (pre, s.n)

    def pick(s, p, opts):
        return s.r.choice(opts) if s.r.random() < p else ''

    def features(s, level, p):
        f = dict(NOF)
        if level == 'file' or level == 'msg':
            f['p'] = s.pick(p, ['EXPLICIT', 'IMPLICIT'])
            f['e'] = s.pick(p, ['OPEN', 'CLOSED'])
            f['r'] = s.pick(p, ['PACKED', 'EXPANDED'])
            f['u'] = s.pick(p, ['VERIFY', 'NONE'])
            f['m'] = s.pick(p, ['LENGTH_PREFIXED', 'DELIMITED'])
        elif level == 'enum':
            f['e'] = s.pick(p, ['OPEN', 'CLOSED'])
        return f

    def make(s):
        r = s.r
        out = []
        s.types = []     # (full name of message, is map entry)
        s.enums = []     # (full name, values)
        s.todo = []
        nf = r.choice([1, 1, 2, 2, 3, 4])
        for i in range(nf):
            syn = r.choice(['proto2', 'proto3', 'editions', 'editions', 'editions', ''])
            f = file('f%d.proto' % i, r.choice(['', 'pk', 'pk.q', 'r%d' % i]), syn, r.choice([1000, 1001]) if syn == 'editions' else 0,
                     [x['name'] for x in out if r.random() < 0.5])
            s.ed = syn == 'editions'
            if s.ed:
                f['feats'] = s.features('file', 0.3)
            s.syntax = syn
            for _ in range(r.choice([0, 1, 2])):
                f['enums'].append(s.enum_(f['package']))
            for _ in range(r.choice([1, 1, 2, 3])):
                f['msgs'].append(s.msg_(f['package'], 0))
            out.append(f)
        r.shuffle(s.todo)
        for fn in s.todo:
            fn()
        for f in out:
            if r.random() < 0.3:
                f['exts'].append(s.ext(f['syntax']))
        if r.random() < 0.3:
            r.shuffle(out)
        return out

    def ext(s, syntax):
        r = s.r
        f = field(s.uniq('x'), r.choice([100, 200, 536870911]), r.choice(SCAL + [9, 12]), label=r.choice([1, 3]), ext='.' + r.choice(s.types)[0])
        if f['label'] == 1 and syntax == 'proto2' and r.random() < 0.4:
            set_default(f, r.choice(DEFAULTS[f['type']]).encode())
        return f

    def enum_(s, scope):
        r = s.r
        name = s.uniq('E')
        first = 0
        if s.syntax in ('proto2', '') and r.random() < 0.5:
            first = r.choice([1, 5, -1, -2147483648, 2147483647, 300])
        e = enum(name, [('%s_A' % name, first), ('%s_B' % name, 2), ('%s_C' % name, -3)][:r.choice([1, 2, 3])], s.features('enum', 0.4) if s.ed else NOF)
        s.enums.append(((scope + '.' if scope else '') + name, e))
        return e

    def msg_(s, scope, depth):
        r = s.r
        name = s.uniq('M')
        fn = (scope + '.' if scope else '') + name
        m = msg(name, feats=s.features('msg', 0.25) if s.ed else NOF)
        s.types.append((fn, m))
        for _ in range(r.choice([0, 0, 1, 2]) if depth < 3 else 0):
            m['nested'].append(s.msg_(fn, depth + 1))
        for _ in range(r.choice([0, 0, 1])):
            m['enums'].append(s.enum_(fn))
        ed, syntax = s.ed, s.syntax
        s.todo.append(lambda: s.fields(m, fn, ed, syntax))
        if r.random() < 0.15:
            s.todo.append(lambda: m['exts'].append(s.ext(syntax)))
        return m

    def fields(s, m, fn, ed, syntax):
        r = s.r
        nums = r.sample(list(range(1, 24)) + [2047, 2048, 18999, 20000, 536870911, 33554432], r.choice([1, 3, 6, 9]))
        if r.random() < 0.8:
            nums.sort()
        json = r.random() < 0.7
        i = 0
        while i < len(nums):
            if r.random() < 0.12:      # a oneof
                k = r.choice([1, 2, 3])
                mem = nums[i:i + k]
                i += k
                for n in mem:
                    m['fields'].append(s.field(n, ed, syntax, oneof=m['oneofs']))
                m['oneofs'] += 1
            elif r.random() < 0.12:
                m['fields'].append(s.mapfield(m, fn, nums[i], ed, syntax))
                i += 1
            else:
                f = s.field(nums[i], ed, syntax)
                i += 1
                m['fields'].append(f)
                if syntax == 'proto3' and f['label'] == 1 and r.random() < 0.3:
                    f['p3'] = True
                    f['oneof'] = m['oneofs']
                    m['oneofs'] += 1
        if json:
            for f in m['fields']:
                f['json'] = camel(f['name']) if r.random() < 0.8 else 'j' + f['name']

    def mapfield(s, m, fn, num, ed, syntax):
        r = s.r
        n = s.uniq('mp')
        en = n.capitalize() + 'Entry'
        key = field('key', 1, r.choice([3, 4, 5, 8, 9, 13, 17]))
        val = s.field(2, False, 'proto3', plain=True)
        val['name'] = 'value'
        val['p3'] = False
        e = msg(en, [key, val], map=True)
        m['nested'].append(e)
        return field(n, num, 11, 3, '.' + fn + '.' + en)

    def field(s, num, ed, syntax, oneof=-1, plain=False):
        r = s.r
        name = s.uniq(r.choice(['a', 'b_c', 'Df', 'x_Y_z', 'e__f']))
        type = r.choice(SCAL + [9, 9, 9, 12, 11, 11, 11, 14, 14, 14])
        if type == 14 and not s.enums:
            type = 5
        f = field(name, num, type, oneof=oneof)
        if type == 11:
            if syntax in ('proto2', '') and r.random() < 0.3:
                f['type'] = 10
            f['tname'] = '.' + r.choice([t for t, m in s.types])
        if type == 14:
            s_e = r.choice(s.enums)
            f['tname'] = '.' + s_e[0]
        if plain:
            return f
        if oneof < 0:
            f['label'] = r.choice([1, 1, 3])
            if syntax in ('proto2', '') and r.random() < 0.15:
                f['label'] = 2
        packable = f['label'] == 3 and f['type'] not in (9, 10, 11, 12)
        if packable and not ed and r.random() < 0.3:
            f['packed'] = r.choice('TF')
        if ed:
            if f['label'] == 1 and oneof < 0:
                f['feats']['p'] = s.pick(0.3, ['EXPLICIT', 'IMPLICIT', 'LEGACY_REQUIRED'] if type != 11 else ['EXPLICIT', 'LEGACY_REQUIRED'])
            if packable:
                f['feats']['r'] = s.pick(0.3, ['PACKED', 'EXPANDED'])
            if type == 9:
                f['feats']['u'] = s.pick(0.3, ['VERIFY', 'NONE'])
            if type == 11:
                f['feats']['m'] = s.pick(0.3, ['LENGTH_PREFIXED', 'DELIMITED'])
        explicit = f['label'] != 3 and (syntax in ('proto2', '') or f['feats']['p'] in ('EXPLICIT', 'LEGACY_REQUIRED'))
        if explicit and r.random() < 0.4:
            if type == 14:
                set_default(f, r.choice(s_e[1]['vals'])[0].encode())
            elif type in DEFAULTS:
                set_default(f, r.choice(DEFAULTS[type]).encode('latin1'))
        return f


# ------------------------------------------------------------------ single changes, most of them defects
def spots(s):
    """every field, extension, enum and message: (container list, index, kind, enclosing message)"""
    out = []

    def m_(lst, i):
        m = lst[i]
        out.append((lst, i, 'msg', None))
        for j in range(len(m['fields'])):
            out.append((m['fields'], j, 'field', m))
        for j in range(len(m['exts'])):
            out.append((m['exts'], j, 'ext', m))
        for j in range(len(m['enums'])):
            out.append((m['enums'], j, 'enum', None))
        for j in range(len(m['nested'])):
            m_(m['nested'], j)
    for f in s:
        for j in range(len(f['msgs'])):
            m_(f['msgs'], j)
        for j in range(len(f['enums'])):
            out.append((f['enums'], j, 'enum', None))
        for j in range(len(f['exts'])):
            out.append((f['exts'], j, 'ext', None))
    return out


NUMS = [0, -1, 18999, 19000, 19500, 19999, 20000, 536870911, 536870912, 2147483647, -2147483648]


def mutate(s, r):
    """one change of a copy; says what it did"""
    s = copy.deepcopy(s)
    sp = spots(s)
    fields = [x for x in sp if x[2] == 'field']
    anyf = [x for x in sp if x[2] in ('field', 'ext')]
    msgs = [x for x in sp if x[2] == 'msg']
    enums = [x for x in sp if x[2] == 'enum']
    names = [n for n, _ in messages(s)]
    what = r.choice(['num', 'num', 'dupnum', 'dupname', 'type', 'label', 'tname', 'tname', 'oneof', 'oneof', 'oneof', 'oneofs', 'order', 'order', 'dup', 'dup', 'emptyname',
                     'fname', 'dep', 'dep', 'edition', 'default', 'default', 'default', 'vals', 'dropenum', 'dropmsg', 'json', 'json', 'ext', 'rename', 'dropfield', 'repeat',
                     'clash', 'dropfile', 'package'])

    def one(l):
        return r.choice(l) if l else None
    if what == 'num' and anyf:
        l, i, _, m = one(anyf)
        l[i]['num'] = r.choice(NUMS)
    elif what == 'dupnum' and fields:
        l, i, _, m = one(fields)
        l[i]['num'] = r.choice(l)['num']
    elif what == 'dupname' and fields:
        l, i, _, m = one(fields)
        l[i]['name'] = r.choice(l)['name']
    elif what == 'type' and anyf:
        l, i, _, m = one(anyf)
        l[i]['type'] = r.choice([1, 5, 9, 10, 11, 14, 12, 18])
        set_default(l[i], bytes(l[i]['def']))
    elif what == 'label' and fields:
        l, i, _, m = one(fields)
        l[i]['label'] = r.choice([1, 2, 3])
    elif what == 'tname' and anyf:
        l, i, _, m = one([x for x in anyf if x[0][x[1]]['type'] in (10, 11, 14)] or anyf)
        t = l[i]['tname']
        l[i]['tname'] = r.choice(['', '.', t[1:], t + 'x', '.' + t, t.upper(), '.nope', '.' + r.choice(names or ['x']), (one(enums) and '.' + one(enums)[0][0]['name']) or '.E', t + '.'])
    elif what == 'oneof' and fields:
        l, i, _, m = one(fields)
        l[i]['oneof'] = r.choice([-1, 0, 1, 2, m['oneofs'], m['oneofs'] - 1, -2, 2147483647, -2147483648])
    elif what == 'oneofs' and msgs:
        l, i, _, m = one(msgs)
        l[i]['oneofs'] = max(0, l[i]['oneofs'] + r.choice([-1, 1, 2]))
    elif what == 'order' and msgs:
        l, i, _, m = one([x for x in msgs if x[0][x[1]]['oneofs']] or msgs)
        f = l[i]['fields']
        if len(f) > 1:
            a, b = r.sample(range(len(f)), 2)
            f[a], f[b] = f[b], f[a]
    elif what == 'dup':
        l, i, k, m = one(msgs + enums)
        tgt = r.choice([x for x in msgs + enums])
        if r.random() < 0.5:
            l[i]['name'] = tgt[0][tgt[1]]['name']
        else:
            l.append(copy.deepcopy(l[i]))
    elif what == 'emptyname':
        l, i, k, m = one(msgs + enums)
        l[i]['name'] = ''
    elif what == 'fname':
        r.choice(s)['name'] = r.choice(['', r.choice(s)['name'], 'other.proto'])
    elif what == 'dep':
        f = r.choice(s)
        f['deps'].append(r.choice([f['name'], 'nope.proto', r.choice(s)['name'], r.choice(s)['name'], '']))
        f['deps'] = list(dict.fromkeys(f['deps']))
    elif what == 'edition':
        f = r.choice(s)
        f['syntax'], f['edition'] = 'editions', r.choice([0, 1002, 1, 9999, 99999, 1000, 1001])
    elif what == 'default' and anyf:
        l, i, _, m = one([x for x in anyf if x[0][x[1]]['type'] in BADDEF] or anyf)
        f = l[i]
        if f['type'] in BADDEF:
            set_default(f, r.choice(BADDEF[f['type']]).encode())
    elif what == 'vals' and enums:
        l, i, _, m = one(enums)
        l[i]['vals'] = [] if r.random() < 0.6 else l[i]['vals'][1:]
    elif what == 'dropenum' and enums:
        l, i, _, m = one(enums)
        del l[i]
    elif what == 'dropmsg' and msgs:
        l, i, _, m = one(msgs)
        del l[i]
    elif what == 'json' and fields:
        l, i, _, m = one([x for x in fields if len(x[0]) > 1] or fields)
        o = r.choice(l)
        l[i]['json'] = r.choice([o['name'], o['json'] or o['name'], camel(o['name']), 'fresh'])
        for f in l:
            f['json'] = f['json'] or camel(f['name'])
    elif what == 'ext' and anyf:
        x = [x for x in anyf if x[2] == 'ext']
        if x:
            l, i, _, m = one(x)
            l[i]['ext'] = r.choice([l[i]['ext'] + 'x', l[i]['ext'][1:], '.nope'])
    elif what == 'rename':
        l, i, k, m = one(msgs + enums)
        l[i]['name'] += 'R'
    elif what == 'dropfield' and fields:
        l, i, _, m = one([x for x in fields if x[0][x[1]]['oneof'] >= 0] or fields)
        del l[i]
    elif what == 'repeat' and fields:
        l, i, _, m = one([x for x in fields if x[0][x[1]]['oneof'] >= 0] or fields)
        l[i]['label'] = 3
    elif what == 'clash' and msgs:
        l, i, _, m = one(msgs)
        l[i]['enums'].append(enum((l[i]['nested'] or [l[i]])[0]['name'], [('ZZ', 0)]))
    elif what == 'dropfile':
        del s[r.randrange(len(s))]
    elif what == 'package':
        r.choice(s)['package'] = r.choice(['', 'pk', r.choice(s)['package']])
    return s, what
