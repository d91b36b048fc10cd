"""Call sequences: covering walks over the explored state graph, and random walks."""
import random
from collections import deque
from .machine import inits, maxr, pairs


class Ids:
    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return self.n


def call(m, rng, ids, ev, tv=None, known=None, thr=None, nest=None, lv=None, fin=None, pt=None):
    """one P step. tv: guards known to be true; `known`: rows whose outcome is fixed (the
    others are random: the specification does not evaluate them)."""
    val = []
    tvs = set(int(x) for x in tv) if tv is not None else None
    true = []
    finite = loop_rows(m)
    fins = list(fin or [])
    for i in range(1, m['nid'] + 1):
        if i in finite:
            if tvs is None or i not in known:
                fins += [i] * rng.choice([0, 0, 1, 1, 2, 3])
        elif tvs is not None and (i in tvs):
            true.append(i)
        elif tvs is not None and i in known:
            pass
        elif rng.random() < (0.3 if tvs is not None else 0.5 if pt is None else pt):
            true.append(i)
    st = dict(op='P', ev=ev, id=ids.next(), tv=true, fin=fins, lv=rng.random() < 0.5 if lv is None else lv,
              thr=thr or [], nest=[], r=0, p='', s='', set=0)
    st['nest'] = [dict(n, id=ids.next()) for n in nest or []]
    return st


def loop_rows(m):
    """the rows whose guards become false after their action has run a number of times"""
    if not m['loop']:
        return set()
    return {r['id'] for p in m['comps'] for r in m['comps'][p]['rows'] if r['ev'] == 'none'}


def any_set(m, rng):
    """a set of dependency objects (see emit.py)"""
    return rng.randrange(16 if m['deps'] > 1 else 4) if m['deps'] else 0


def plain(op, **kw):
    st = dict(op=op, ev='', id=0, tv=[], fin=[], lv=True, thr=[], nest=[],
              r=0, p='', s='', set=0, form=0)
    st.update(kw)
    return st


def edge_step(m, rng, ids, e):
    lab = e['lab']
    if lab['op'] == 'D':
        return plain('D', set=any_set(m, rng))
    if lab['op'] == 'S':
        forms = [0]
        if lab['r'] == 1:
            forms.append(2)
            if lab['p'] == m['root']:
                forms.append(1)
        return plain('S', r=lab['r'], p=lab['p'], s=lab['s'], form=rng.choice(forms))
    # only guards the specification evaluated are fixed
    return call(m, rng, ids, lab['ev'], tv=e['tv'], known=e['known'], thr=lab['thr'], nest=lab['nest'],
                fin=lab['fin'])


def cover(m, edges, rng, max_steps, max_len=40):
    """walks from the initial configuration covering the edges; -> (traces, covered, total)"""
    if not edges:
        return [], 0, 0
    out = {}
    for i, e in enumerate(edges):
        out.setdefault(e['pre'], []).append(i)
    init = m['_init']
    todo = set(range(len(edges)))
    traces, steps = [], 0
    unreach = set()
    while todo - unreach and steps < max_steps:
        cur, tr = init, []
        ids = Ids()
        progressed = False
        while len(tr) < max_len:
            here = [i for i in out.get(cur, ()) if i in todo]
            if here:
                i = rng.choice(here)
                path = [i]
            else:
                path = _nearest(out, edges, cur, todo, rng)
                if path is None or (tr and len(tr) + len(path) > max_len):
                    break
            for i in path:
                if i in todo:
                    progressed = True
                todo.discard(i)
                tr.append(edge_step(m, rng, ids, edges[i]))
                cur = edges[i]['post']
        if not progressed:
            break
        traces.append(tr)
        steps += len(tr)
    return traces, len(edges) - len(todo), len(edges)


def _nearest(out, edges, cur, todo, rng):
    prev = {cur: None}
    dq = deque([cur])
    while dq:
        x = dq.popleft()
        lst = out.get(x, [])
        for i in lst:
            if i in todo:
                path = [i]
                while prev[x] is not None:
                    j, y = prev[x]
                    path.append(j)
                    x = y
                return path[::-1]
        for i in lst:
            y = edges[i]['post']
            if y not in prev:
                prev[y] = (i, x)
                dq.append(y)
    return None


def random_walks(m, rng, n, length, flood=False):
    """uniform walks, walks with guards that are mostly true or mostly false, and bursts of one
    event, which fill and empty the queue of deferred events; the last walk is a long one. flood:
    with hundreds of deferred events, or hundreds of completion passes"""
    traces = []
    deferring = any(m['st'][s]['df'] for s in m['st'])
    for k in range(n):
        ids = Ids()
        evs = list(m['evs'])
        w = [rng.random() + 0.2 for _ in evs]
        pt = rng.choice([None, None, None, 0.9, 1.0, 0.1])
        last = k == n - 1
        size = length * 8 if last else length
        burst = rng.random() < (0.6 if deferring else 0.2)
        tr = []
        while len(tr) < size:
            ev = rng.choices(evs, w)[0]
            times = rng.choice([1, 2, 4, 8, 40 if last and deferring else 12]) if burst else 1
            for _ in range(times):
                tr.append(call(m, rng, ids, ev, pt=pt))
            if last and not deferring and rng.random() < 0.05:
                # events that change nothing, again and again
                tr.append(dict(call(m, rng, ids, ev, pt=0.0), rep=rng.choice([300, 70000])))
            if flood and last and rng.random() < 0.03:
                if m['loop']:
                    rows = sorted(loop_rows(m))
                    tr[-1]['fin'] = [r for r in rng.sample(rows, min(len(rows), 2)) for _ in range(rng.choice([20, 50, 300]))]
                elif deferring:
                    ev = rng.choice(evs)
                    tr += [call(m, rng, ids, ev, pt=pt) for _ in range(300)]
        traces.append(tr)
    return traces


# ---- enrichment ------------------------------------------------------------------------
def m1(m):
    """every region may be put anywhere by set(): no composite has several regions"""
    return all(len(inits(m, p)) == 1 for p in m['comps'] if p != m['root'])


def callbacks(m, ev):
    """callbacks that an event can cause, as (kind, name)"""
    res = []
    for p in m['comps']:
        for r in list(m['comps'][p]['rows']) + [dict(i, tk='', t='', s='', sk='') for i in m['comps'][p]['ints']]:
            if r['ev'] in (ev, 'none'):
                if r['g']:
                    res.append(('guard', str(r['id'])))
                res += [('act', a['n']) for a in r['a'] if a['k'] != 'log']
                if r['sk'] == 'st' and m['st'][r['s']]['ex']:
                    res.append(('exit', r['s']))
                if r['tk'] == 'st' and m['st'][r['t']]['en']:
                    res.append(('entry', r['t']))
    for s in m['st']:
        for r in m['st'][s]['ints']:
            if r['ev'] == ev:
                if r['g']:
                    res.append(('guard', str(r['id'])))
                res += [('act', a['n']) for a in r['a'] if a['k'] != 'log']
    if m['handler']:
        res.append(('unexp', ''))
    return res


def enrich(m, tr, rng, kinds, walk):
    """adds set_dependency, moves and, on random walks, set(), throwing and nesting callbacks"""
    out = []
    nid = max([s['id'] for s in tr] + [n['id'] for s in tr for n in s['nest']] + [0]) + 1000
    prs = pairs(m)
    free = m1(m)
    nroot = len(inits(m, m['root']))
    for s in tr:
        if 'dep' in kinds and m['deps'] and rng.random() < 0.12:
            out.append(plain('D', set=any_set(m, rng)))
        if 'move' in kinds and rng.random() < 0.12:
            out.append(plain('M', form=rng.randrange(3), set=any_set(m, rng)))
        if walk and 'set' in kinds and free and m['mc']['set'] and rng.random() < 0.15:
            p, q = rng.choice(prs)
            r = rng.randrange(nroot) + 1
            forms = [0] + ([2] if r == 1 else []) + ([1] if r == 1 and p == m['root'] else [])
            out.append(plain('S', r=r, p=p, s=q, form=rng.choice(forms)))
        if 'set' in kinds and m['mc']['set'] and rng.random() < 0.04:
            p, q = rng.choice(prs)
            out.append(plain('S', r=maxr(m) + rng.choice([1, 1, 2, 100]), p=p, s=q))
        if walk and s['op'] == 'P':
            cbs = callbacks(m, s['ev'])
            pt = 0.35 if 'throw' in kinds else 0.05 if 'throwrare' in kinds else 0
            if cbs and rng.random() < pt:
                s = dict(s, thr=list(rng.choice(cbs)))
            if rng.random() < (0.5 if 'nest' in kinds else 0.1 if 'nestrare' in kinds else 0):
                plans, ev = [], s['ev']
                for _ in range(rng.choice([1, 1, 1, 1, 2, 2, 3, 3, 12])):
                    c2 = [x for x in callbacks(m, ev) if x[0] != 'guard' and not factory(m, x)]
                    if not c2:
                        break
                    k, n = rng.choice(c2)
                    nid += 1
                    # the next plan is for a callback of this call, or of the nested one
                    plans.append(dict(k=k, n=n, ev=rng.choice(m['evs']), id=nid, c=rng.random() < 0.4))
                    ev = rng.choice([ev, plans[-1]['ev']])
                s = dict(s, nest=plans)
        out.append(s)
    return out


def factory(m, cb):
    return cb[0] == 'act' and any(a['n'] == cb[1] and a['k'] != 'act' for p in m['comps']
                                  for r in m['comps'][p]['rows'] for a in r['a'])
