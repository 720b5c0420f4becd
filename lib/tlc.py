"""Running TLC: model checking runs, and trace validation of recorded executions."""
import json, os, re, shutil, subprocess, time, tempfile
from build import VERIF, BUILD, CheckError

SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'


def _classpath():
    import glob
    jars = [JAR] + [j for j in glob.glob('/opt/veriftools/tla/*.jar') if j != JAR]
    return ':'.join(jars)


class Result:
    pass


def run(module, cfg, workdir, workers=8, timeout=600, heap='6g', extra=(), env=None):
    """module: name of a .tla in workdir; cfg: text.  -> Result with .rc .out .states .distinct .violated"""
    open(os.path.join(workdir, module + '.cfg'), 'w').write(cfg)
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss512m', '-Xmx' + heap, '-Dtlc2.TLC.stopAfter=%d' % timeout, '-cp', _classpath(), 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-deadlock', '-config', module + '.cfg'] + list(extra) + [module + '.tla']
    t = time.time()
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Result()
    r.rc, r.out, r.wall = p.returncode, p.stdout, time.time() - t
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
    r.states, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = re.findall(r'Invariant (\w+) is violated', p.stdout)
    r.violated = m
    r.ok = 'Model checking completed. No error has been found.' in p.stdout
    return r


def workdir(name, modules, files=None):
    d = os.path.join(BUILD, 'tlc', name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for m in modules:
        src = os.path.join(SPEC, m + '.tla')
        shutil.copy(src, d)
    for k, v in (files or {}).items():
        open(os.path.join(d, k), 'w').write(v)
    return d
