"""Validation of recorded executions against the specification (spec/HsmTrace.tla)."""
import json, os, re
from . import tlc
from .explore import strip

EMPTY = dict(out=[], ret=False, thrown=False, touch=0, nreg=0, isr=[], isp=[], iss=[], pis=[], oor=True, ls=0, le=0,
             i=0, status='')


class ValidationError(Exception):
    pass


def join(m, script, recs, inst=0):
    """the steps of one instance with what was observed"""
    steps = []
    fl = dict(dset=False, sset=False, tset=False, nset=False)
    for (i, s), r in zip(script, recs):
        if i != inst:
            continue
        if s['op'] == 'D':
            fl['dset'] = True
        if s['op'] == 'S':
            fl['sset'] = True
        if s['thr']:
            fl['tset'] = True
        if s['nest']:
            fl['nset'] = True
        d = dict(EMPTY)
        if 'crash' in r:
            d['crash'] = True
        else:
            d.update(r)
            d['crash'] = False
        d.update({k: s[k] for k in ('op', 'ev', 'id', 'tv', 'fin', 'thr', 'nest', 'r', 'p', 's', 'set')})
        d.update(fl)
        d['fq'] = bool(m.get('fewq'))
        d.pop('i', None)
        steps.append(d)
        if d['crash']:
            break
    return steps


def validate(machines, traces, workdir, workers=8, timeout=800, chunk=60000):
    """traces: list of (machine index, steps). -> (list of rejects, stats)"""
    rejects, gen, dist = [], 0, 0
    batch, size, base = [], 0, 0
    batches = []
    for t in traces:
        batch.append(t)
        size += len(t[1])
        if size >= chunk:
            batches.append((base, batch))
            base += len(batch)
            batch, size = [], 0
    if batch:
        batches.append((base, batch))
    mp = os.path.join(workdir, 'tr_machines.json')
    with open(mp, 'w') as f:
        json.dump([strip(m) for m in machines], f)
    for base, batch in batches:
        tp = os.path.join(workdir, 'traces_%d.json' % base)
        with open(tp, 'w') as f:
            json.dump([dict(mi=mi + 1, steps=st) for mi, st in batch], f)
        r = tlc.run('HsmTrace', 'HsmTrace.cfg', {'HSM_MACHINES': mp, 'HSM_TRACES': tp}, workdir,
                    workers=workers, timeout=timeout)
        os.unlink(tp)
        if r['rc'] != 0:
            raise ValidationError('\n'.join(l for l in r['out'].splitlines()
                                            if not l.startswith(('Parsing', 'Semantic', 'Linting')))[:5000])
        gen += r['generated']
        dist += r['distinct']
        exp = {}
        for line in r['out'].splitlines():
            if line.startswith('"EXPECTED '):
                d = json.loads(json.loads(line)[9:])
                exp[d['t'], d['i']] = d
        for line in r['out'].splitlines():
            if line.startswith('"REJECT '):
                d = json.loads(json.loads(line)[7:])
                rejects.append(dict(trace=base + d['t'] - 1, step=d['i'] - 1, props=sorted(d['v']),
                                    expected=exp.get((d['t'], d['i']))))
        # every trace must have been replayed to its end or to a rejection
        want = sum(len(st) for _, st in batch) + len(batch)
        cut = sum(len(batch[x['trace'] - base][1]) - x['step'] - 1 for x in rejects if x['trace'] >= base)
        if r['distinct'] + cut != want:
            raise ValidationError('incomplete validation: %d states for %d steps (%d cut)' % (r['distinct'], want, cut))
    return rejects, dict(generated=gen, distinct=dist)
