"""Build helpers: objects cached on the hash of their preprocessed text, so that every check rebuilds exactly what a
change to /repo touches (comment-only edits hit the cache) and never mistakes a stale object for the current tree."""
import hashlib, os, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
PROTOC = '/opt/vp/protoc/bin/protoc'
CLANG = shutil.which('clang++-20') or shutil.which('clang++')
GXX = 'g++'
BASE = ['-std=gnu++23', '-I' + REPO + '/include', '-DHPP_PROTO_NO_UTF8_VALIDATION=1']
CL = ['-fconstexpr-steps=67108864', '-fbracket-depth=1024', '-ferror-limit=5', '-Wno-everything']
GC = ['-fconstexpr-ops-limit=67108864', '-fconstexpr-loop-limit=1048576', '-w', '-fmax-errors=5']
SAN = ['-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=function']
JOBS = 8


class CheckError(Exception):
    """the machinery itself failed: an error exit, never a violation"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


def compile_obj(src, flags, compiler=None, timeout=800):
    """-> path of the object file (cached)"""
    compiler = compiler or CLANG
    extra = CL if 'clang' in compiler else GC
    flags = [f for f in flags if '/shim' in f] + BASE + extra + [f for f in flags if '/shim' not in f]
    pp = subprocess.run([compiler] + flags + ['-E', '-P', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pp.returncode:
        raise CheckError('preprocessing %s failed:\n%s' % (src, pp.stderr.decode()[:2000]))
    nopath = [f for f in flags if not f.startswith('-I')]
    key = _hash(compiler, ' '.join(nopath), pp.stdout)
    d = os.path.join(BUILD, 'obj', key[:2])
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, key + '.o')
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    r = sh([compiler] + flags + ['-c', src, '-o', tmp], timeout=timeout)
    if r.returncode:
        errs = [l[:400] for l in r.stdout.splitlines() if 'error' in l][:8]
        raise CheckError('compiling %s failed:\n%s' % (src, '\n'.join(errs) or r.stdout[-1500:]))
    os.rename(tmp, obj)
    return obj


def link(objs, flags=(), compiler=None, libs=()):
    compiler = compiler or CLANG
    key = _hash(compiler, ' '.join(flags), ' '.join(libs), *[os.path.basename(o) for o in objs])
    d = os.path.join(BUILD, 'bin')
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, key)
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    tmp = exe + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    r = sh([compiler] + list(flags) + list(objs) + ['-o', tmp] + list(libs))
    if r.returncode:
        raise CheckError('linking failed:\n' + r.stdout[-2000:])
    os.rename(tmp, exe)
    return exe


def build_exe(units, link_flags=(), compiler=None, libs=()):
    """units: list of (src, flags) compiled in parallel, then linked"""
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda u: compile_obj(u[0], u[1], compiler), units))
    return link(objs, link_flags, compiler, libs)


def plugin():
    p = REPO + '/src/protoc-plugin/'
    fl = ['-O0', '-I' + p, '-DHPP_PROTO_VERSION="verif"']
    return build_exe([(p + f, fl) for f in sorted(os.listdir(p)) if f.endswith('.cpp')])


def generate(files, name, includes=()):
    """files: {proto name: text}.  Runs protoc with the plugin built from the current tree.
    -> directory with the .proto files and the generated headers"""
    pl = plugin()
    key = _hash(os.path.basename(pl), *[k + '\1' + v for k, v in sorted(files.items())], *includes)
    d = os.path.join(BUILD, 'gen', name + '-' + key)
    if os.path.exists(os.path.join(d, '.ok')):
        return d
    tmp = d + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for k, v in files.items():
        os.makedirs(os.path.dirname(os.path.join(tmp, k)), exist_ok=True)
        open(os.path.join(tmp, k), 'w').write(v)
    link_ = os.path.join(tmp, 'protoc-gen-hpp')
    os.symlink(pl, link_)
    r = sh([PROTOC, '-I.'] + ['-I' + i for i in includes] + ['--plugin=protoc-gen-hpp=' + link_, '--hpp_out=.',
            '--descriptor_set_out=all.binpb', '--include_imports'] + sorted(files), cwd=tmp, timeout=300)
    if r.returncode:
        raise CheckError('protoc/plugin failed on %s:\n%s' % (name, r.stdout[-2000:]))
    open(os.path.join(tmp, '.ok'), 'w').write('')
    try:
        os.rename(tmp, d)
    except OSError:   # another run was first
        shutil.rmtree(tmp, ignore_errors=True)
    return d


WKT = ['any', 'api', 'duration', 'empty', 'field_mask', 'source_context', 'struct', 'timestamp', 'type', 'wrappers']


def wkt():
    """headers of the well-known types, generated as the repository's build does"""
    for d in ('/opt/vp/protoc-venv/lib/python3.12/site-packages/grpc_tools/_proto', '/usr/include'):
        if os.path.exists(d + '/google/protobuf/any.proto'):
            return generate({'google/protobuf/%s.proto' % n: open('%s/google/protobuf/%s.proto' % (d, n)).read() for n in WKT}, 'wkt')
    raise CheckError('no well-known type protos')


def prune(limit=3 << 30):
    """keep the cache bounded"""
    fs = []
    for sub in ('obj', 'bin'):
        for r, _, f in os.walk(os.path.join(BUILD, sub)):
            for x in f:
                p = os.path.join(r, x)
                try:
                    st = os.stat(p)
                    fs.append((st.st_mtime, st.st_size, p))
                except OSError:
                    pass
    tot = sum(s for _, s, _ in fs)
    for t, s, p in sorted(fs):
        if tot <= limit:
            break
        os.unlink(p)
        tot -= s
