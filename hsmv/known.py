"""Known findings (known_findings.json): machines whose `ideal` semantics the library does not have."""
import json, os, random
from . import paths
from .machine import machine

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')


def findings(prop):
    """-> [(finding, machine, script)]"""
    with open(FILE) as f:
        lst = json.load(f)['findings']
    res = []
    for k in lst:
        if k['property'] != prop:
            continue
        d = dict(k['machine'])
        m = machine('kf_' + k['id'], d.pop('comps'), tag='', mc=dict(throw=False, nest=[], nests=1, set=False, dep=False, q=2, fine=False),
                    **d)
        m['props'] = []
        rng, ids = random.Random(0), paths.Ids()
        script = [(0, paths.plain('N'))]
        for c in k['calls']:
            ev, true = (c, []) if isinstance(c, str) else (c['ev'], c['true'])
            script.append((0, paths.call(m, rng, ids, ev, tv=true, known=range(1, m['nid'] + 1))))
        res.append((k, m, script))
    return res
