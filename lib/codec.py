"""Building the codec driver (drivers/codec_*.cpp) for the vt schema."""
import os, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'gen'))
import build, schema as S, gencpp

D = os.path.join(build.VERIF, 'drivers')


def gen_dir():
    d = build.generate(S.proto_files(), 'vt')
    txt = gencpp.dump_build()
    p = os.path.join(d, 'vt_codec.hpp')
    if not os.path.exists(p) or open(p).read() != txt:
        t = p + '.%d.%d' % (os.getpid(), threading.get_ident())
        open(t, 'w').write(txt)
        os.rename(t, p)
    return d


def driver(tids, ops, groups=None, san=True, utf8=False):
    """ops: subset of DEC, ENC, MERGE"""
    d = gen_dir()
    inc = ['-I' + d, '-I' + D]
    fl = build.SAN if san else ['-O1']
    if utf8: inc.append('-UHPP_PROTO_NO_UTF8_VALIDATION')
    units = [(D + '/codec_main.cpp', fl + inc)]
    for t in tids:
        for g in groups or S.GROUPS:
            for o in ops:
                units.append((D + '/codec_tu.cpp', fl + inc + ['-DTID=%d' % t, '-DGRP=%d' % g, '-DOP_' + o]))
    if utf8: units.append((D + '/utf8_standin.cpp', fl))
    units.sort(key=lambda u: 'codec_main' in u[0])
    return build.build_exe(units, [f for f in fl if f.startswith('-fsan') or f.startswith('-fno-san')])


def dyn_driver(src='dyn_codec.cpp', san_factory=False, extra=()):
    """a driver on dynamic messages, with the factory of the current tree"""
    inc = ['-I' + D + '/dynshim', '-I' + D, '-I' + build.wkt(), '-UHPP_PROTO_NO_UTF8_VALIDATION']
    units = [(D + '/' + src, build.SAN + inc), (build.REPO + '/src/dynamic_message/factory.cpp', (build.SAN if san_factory else ['-O0']) + inc),
             (D + '/utf8_standin.cpp', build.SAN)]
    return build.build_exe(units + list(extra), [f for f in build.SAN if f.startswith('-fsan') or f.startswith('-fno-san')])


if __name__ == '__main__':
    print(driver([int(x) for x in sys.argv[1].split(',')], sys.argv[2].split(',')))
