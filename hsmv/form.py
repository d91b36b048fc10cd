"""C25: programs enumerated and judged by spec/HsmForm.tla, and what the compiler says."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core, emit, generate, plan, run, scenarios, tlc
from .explore import strip

CXX = [['clang++', '-ferror-limit=2', '-fsyntax-only'] + run.FLAGS, ['g++', '-fmax-errors=2', '-fsyntax-only'] + run.FLAGS]


def enumerate_programs(machines, work):
    path = os.path.join(work, 'form.json')
    with open(path, 'w') as f:
        json.dump([strip(m) for m in machines], f)
    r = tlc.run('HsmForm', 'HsmForm.cfg', {'HSM_MACHINES': path}, work, workers=1)
    if r['rc'] != 0:
        raise RuntimeError('TLC: ' + '\n'.join(x for x in r['out'].splitlines() if not x.startswith('"PROGRAM'))[-3000:])
    progs = []
    for line in r['out'].splitlines():
        if line.startswith('"PROGRAM '):
            progs.append(json.loads(json.loads(line)[8:]))
    return progs, r


def key(p):
    return json.dumps([p['b'], p['mut'], p['use']], sort_keys=True)


def source(m, use):
    """m as printed by TLC"""
    if isinstance(m['comps'], list):
        m['comps'] = {}
    return emit.emit_program(m, use)


def compile_one(work, n, text):
    path = os.path.join(work, 'p%d.cpp' % n)
    with open(path, 'w') as f:
        f.write(text)
    res = []
    for cxx in CXX:
        p = subprocess.run(cxx + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=400)
        res.append((p.returncode == 0, p.stdout[:1500]))
        yield res[-1]


@core.workdir
def check(work, prop, tier, seed):
    rep = core.Report(prop, tier, seed)
    thorough = tier == 'thorough'
    ms = [m for m in scenarios.ALL if prop in m['props'] or thorough]
    names = plan.PROFILES[prop].split()
    ms += generate.pool(seed, names, 60 if thorough else 6)
    ms = [m for m in ms if m['tag'] != 'custom']
    progs, st = enumerate_programs(ms, work)
    rep.cov['states'] += st['distinct']
    rep.cov['transitions'] += st['generated']
    rng = random.Random('%s/%d' % (prop, seed))
    by = {}
    for p in sorted(progs, key=key):
        by.setdefault((p['b'] if thorough else p['b'] % 3, p['mut']['k'], p['use']['k'], p['err'], p['use']['p'] == 'Zz'), []).append(p)
    todo = []
    for k in sorted(by):
        rng.shuffle(by[k])
        todo += by[k][:20 if thorough else 3]

    def one(a):
        n, p = a
        got = []
        for ok, text in compile_one(work, n, source(p['m'], p['use'])):
            got.append((ok, text))
            if ok:
                break     # accepted by one compiler
            if p['err']:
                break     # rejected, as it should be
        return p, got
    with ThreadPoolExecutor(core.WORKERS) as ex:
        results = list(ex.map(one, list(enumerate(todo))))
    errs = {}
    for p, got in results:
        ok = got[-1][0]
        errs[p['err'] or 'well-formed'] = errs.get(p['err'] or 'well-formed', 0) + 1
        if ok == (p['err'] == ''):
            rep.cov['traces_validated_against_impl'] += 1
            continue
        what = '%s of machine %s: %s' % (
            json.dumps(p['use']), ms[p['b'] - 1]['name'],
            'compiles, but is ill-formed: ' + p['err'] if ok else 'is well-formed, but does not compile: ' + got[0][1][:300])
        rep.violation(what, dict(machine=p['m'], use=p['use'], mutation=p['mut'], source=source(p['m'], p['use']),
                                 compiler=[t for _, t in got]))
    rep.cov['programs_by_verdict'] = errs
    rep.cov['programs_enumerated'] = len(progs)
    for p, _ in results[:2]:
        rep.cov['samples'].append(dict(machine=ms[p['b'] - 1]['name'], mutation=p['mut'], use=p['use'], verdict=p['err'] or 'well-formed'))
    return rep.finish(assumptions=['clang++ 18 (and, for well-formed programs, g++ 13) decide what compiles'])
