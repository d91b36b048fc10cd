"""Exploration of machines with TLC (spec/HsmMC.tla): the idle-to-idle state graph."""
import json, os, re
from . import tlc


class DesignViolation(Exception):
    pass


def explore(machines, workdir, workers=8, timeout=600, cfg='HsmMC.cfg', cap=0, tag=''):
    """-> (list of edge lists per machine, stats). An edge: dict(pre, post, lab, tv, ret, ids)."""
    path = os.path.join(workdir, 'mc_machines%s.json' % tag)
    with open(path, 'w') as f:
        json.dump([strip(m) for m in machines], f)
    r = tlc.run('HsmMC', cfg, {'HSM_MACHINES': path, 'HSM_CAP': str(cap)}, workdir, workers=workers, timeout=timeout)
    edges = [[] for _ in machines]
    for line in r['out'].splitlines():
        if line.startswith('"EDGE '):
            d = json.loads(json.loads(line)[5:])
            edges[d['m'] - 1].append(dict(pre=json.dumps(d['pre'], sort_keys=True),
                                          post=json.dumps(d['post'], sort_keys=True),
                                          lab=d['lab'], tv=d['tv'], known=d['known'], ret=d['ret'], tk=d['ev'],
                                          nq=len(d['post']['q'])))
        elif line.startswith('"INIT '):
            d = json.loads(json.loads(line)[5:])
            machines[d['m'] - 1]['_init'] = json.dumps(d['at'], sort_keys=True)
    bad = re.search(r'Invariant (\w+) is violated', r['out'])
    if bad or r['rc'] != 0:
        raise DesignViolation((bad.group(1) if bad else 'TLC failed') + '\n' +
                              '\n'.join(l for l in r['out'].splitlines() if not l.startswith(('"EDGE', '"INIT', 'Parsing', 'Semantic')))[:6000])
    return edges, r


def strip(m):
    return {k: v for k, v in m.items() if k not in ('props', 'fewq', 'allq', 'comps_dsl', '_init', 'explore', 'nm', 'values', 'samedep')}
