"""Building and running the test driver of a machine."""
import json, os, resource, signal, subprocess
from . import emit

REPO = '/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=c++17', '-O0', '-w', '-D_GLIBCXX_ASSERTIONS', '-I' + REPO + '/include', '-I' + HERE + '/harness']
CXX = ['clang++', '-ferror-limit=3'] + FLAGS
CXX2 = ['g++', '-fmax-errors=3'] + FLAGS     # tried when clang++ rejects the program
SAN = ['-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']


class BuildError(Exception):
    pass


def build(m, workdir, tag='', san=False, **kw):
    base = os.path.join(workdir, m['name'] + tag)
    with open(base + '.cpp', 'w') as f:
        f.write(emit.emit(m, use_set=m['mc']['set'], **kw))
    said = ''
    for cxx in (CXX, CXX2):
        try:
            p = subprocess.run(cxx + (SAN if san else []) + [base + '.cpp', '-o', base], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors='replace', timeout=400)
        except subprocess.TimeoutExpired:
            said += 'compiler timeout\n'
            continue
        if p.returncode == 0:
            return base
        said += p.stdout[:3000]
    raise BuildError(said)


def command(s, inst=0):
    if s['op'] == 'P':
        # val is indexed by row id; ids start at 1
        top = max(s['tv'] + s['fin'] + [0])
        val = [0] * (top + 1)
        for i in s['fin']:
            val[i] += 1
        for i in s['tv']:
            val[i] = 1000     # always true
        thr = s['thr'] or ['-', '-']
        n = s['nest']
        return 'P %d %s %d %d %d %s %s %s %d %d%s' % (
            inst, s['ev'], s['id'], (1 if s['lv'] else 0) + 2 * s.get('rep', 0), len(val), ' '.join(map(str, val)), thr[0], thr[1] or '-', s['id'],
            len(n), ''.join(' %s %s %s %d %d' % (x['k'], x['n'] or '-', x['ev'], x['id'], x['c']) for x in n))
    if s['op'] == 'S':
        return 'S %d %d %d %s %s' % (inst, s['form'], s['r'] - 1, s['p'], s['s'])
    if s['op'] == 'N':
        return 'N %d %d' % (inst, s['set'])
    if s['op'] == 'D':
        return 'D %d %d' % (inst, s['set'])
    if s['op'] == 'X':
        return 'X %d' % inst
    if s['op'] == 'M':
        return 'M %d %d %d' % (inst, s['form'], s['set'])
    raise ValueError(s['op'])


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(exe, scripts, timeout=60, max_crashes=4, san=False):
    """scripts: list of lists of (instance, step). -> list of lists of records (None = not run).
    A record of a step that crashed or did not come back is {'crash': reason}."""
    res = [None] * len(scripts)
    todo = list(range(len(scripts)))
    crashes = 0
    while todo and crashes <= max_crashes:
        inp = []
        for n in todo:
            inp.append('T %d' % n)
            for inst, s in scripts[n]:
                if 'inside' in s:
                    inp.append('O %s %s' % (s['inside'][0], s['inside'][1] or '-'))
                inp.append(command(s, inst))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE if san else subprocess.DEVNULL,
                             preexec_fn=None if san else _limits, env=env)
        why = ''
        err = b''
        try:
            out, err = p.communicate(('\n'.join(inp) + '\n').encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            why = 'no answer'
        cur = None
        ended = False
        for line in out.decode(errors='replace').splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                break
            if 'trace' in d:
                cur = d['trace']
                res[cur] = []
            elif 'end' in d:
                ended = True
            else:
                res[cur].append(d)
        if ended and p.returncode == 0:
            break
        crashes += 1
        if not why:
            why = 'no answer' if p.returncode == -signal.SIGPROF else 'exit status %d' % p.returncode
            if err:
                why += ' ' + err.decode(errors='replace')[:1500]
        if cur is None:
            cur = todo[0]
            res[cur] = []
        if len(res[cur]) < len(scripts[cur]):
            res[cur].append({'crash': why})
        todo = [n for n in todo if n > cur]
    return res
