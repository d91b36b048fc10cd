"""Machine descriptions: a compact textual DSL and its JSON form (see spec/Hsm.tla).

A machine is written as {composite: [row strings], ...}; the first composite is the
root. A row string is

    [*]SRC + EVENT [g] / a = TGT         (event, guard and action are optional)

SRC:  A | exit(P,A) | direct(P,A)      a leading * marks an initial state
TGT:  A | entry(P,A) | direct(P,A) | hist(P)
`/ a` gives the row one action, `/ aa` a chain of two, `/ C` create_state, `/ R` reuse_state,
`/ L` hsm::log.
"""
import re

ROW = re.compile(r'^\s*(?P<ini>\*)?\s*(?P<src>[A-Za-z0-9_]+(\([^)]*\))?)\s*'
                 r'(\+\s*(?P<ev>[A-Za-z0-9_]+))?\s*(?P<g>\[g\])?\s*(/\s*(?P<a>[aCRL]+))?\s*'
                 r'=\s*(?P<tgt>[A-Za-z0-9_]+(\([^)]*\))?)\s*$')
INT = re.compile(r'^\s*(?P<ev>[A-Za-z0-9_]+)\s*(?P<g>\[g\])?\s*(/\s*(?P<a>[aL]+))?\s*$')


def _ref(txt):
    m = re.match(r'^([a-z]+)\(([^)]*)\)$', txt)
    if not m:
        return ('st', '', txt)
    args = [x.strip() for x in m.group(2).split(',')]
    if m.group(1) == 'hist':
        return ('hist', args[0], '')
    return (m.group(1), args[0], args[1])


def machine(name, comps, ints=None, entry='', exit='', defer=None, handler=False, deps=0,
            custom='', ideal=(), loop=False, **extra):
    """comps: {composite: rows}; ints: {state or composite: internal rows};
    entry/exit: space separated state names; defer: {state: 'e1 e2'}"""
    ids = [0]

    def nid():
        ids[0] += 1
        return ids[0]

    def acts(code):
        r = []
        for ch in code or '':
            r.append({'k': {'a': 'act', 'C': 'create', 'R': 'reuse', 'L': 'log'}[ch], 'n': str(nid())})
        return r
    root = next(iter(comps))
    jc, states, evs = {}, [], []

    def see(s):
        if s and s not in states:
            states.append(s)

    def seev(e):
        if e != 'none' and e not in evs:
            evs.append(e)
    for p, rows in comps.items():
        out = []
        for r in rows:
            m = ROW.match(r)
            if not m:
                raise ValueError('bad row: ' + r)
            sk, sp, s = _ref(m['src'])
            tk, tp, t = _ref(m['tgt'])
            i = nid()
            a = acts(m['a'])
            ev = m['ev'] or 'none'
            out.append(dict(id=i, ini=bool(m['ini']), sk=sk, sp=sp, s=s, ev=ev, g=bool(m['g']),
                            a=a, tk=tk, tp=tp, t=t))
            see(s), see(t), seev(ev)
        jc[p] = {'rows': out, 'ints': []}
    for p in comps:
        see(p)
    st = {}
    entry, exit, custom = entry.split(), exit.split(), custom.split()
    for s in states:
        st[s] = dict(en=s in entry, ex=s in exit, df=[], ints=[], cu=s in custom)
    for s, d in (defer or {}).items():
        st[s]['df'] = d.split()
        for e in d.split():
            seev(e)
    for s, rows in (ints or {}).items():
        lst = []
        for r in rows:
            m = INT.match(r)
            if not m:
                raise ValueError('bad internal row: ' + r)
            i = nid()
            lst.append(dict(id=i, ev=m['ev'], g=bool(m['g']), a=acts(m['a'])))
            seev(m['ev'])
        if s in jc:
            jc[s]['ints'] = lst
        else:
            st[s]['ints'] = lst
    return dict(name=name, root=root, comps=jc, st=st, evs=evs, handler=handler, deps=deps,
                nid=ids[0], ideal=list(ideal), loop=loop, **extra)


# ---- static helpers used by the generator and the emitter ----
def children(m, p):
    r = []
    for row in m['comps'][p]['rows']:
        for k, s in ((row['sk'], row['s']), (row['tk'], row['t'])):
            if k == 'st' and s not in r:
                r.append(s)
    return r


def inits(m, p):
    r = []
    for row in m['comps'][p]['rows']:
        if row['ini'] and row['s'] not in r:
            r.append(row['s'])
    return r


def pairs(m):
    return [(p, s) for p in m['comps'] for s in children(m, p) if s not in m['comps']]


def maxr(m):
    return max(len(inits(m, p)) for p in m['comps'])
