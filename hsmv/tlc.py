"""Running TLC."""
import os, re, subprocess, tempfile, shutil, time

JAR = '/opt/veriftools/tla/tla2tools.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class TlcError(Exception):
    pass


def classpath():
    import glob
    cands = [JAR] + glob.glob('/opt/veriftools/tla/*.jar')
    return ':'.join(dict.fromkeys(cands))


def run(module, cfg, env, workdir, workers=8, timeout=600, args=(), xss='64m', xmx='6g', simulate=None):
    meta = os.path.join(workdir, 'meta_%s_%d' % (module, int(time.time() * 1e6)))
    cmd = ['java', '-Xss' + xss, '-Xmx' + xmx, '-XX:+UseParallelGC', '-cp', classpath(), 'tlc2.TLC',
           '-config', os.path.join(SPEC, cfg), '-workers', str(workers), '-metadir', meta,
           '-deadlock', '-noGenerateSpecTE', *args, os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env)
    e.pop('JAVA_TOOL_OPTIONS', None)
    p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, errors='replace')
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    st = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    gen, dist = (int(st[-1][0]), int(st[-1][1])) if st else (0, 0)
    return dict(rc=p.returncode, out=out, generated=gen, distinct=dist)
