"""Random machines of the supported class (see DESIGN.md), by feature profile."""
import random
from .machine import machine, children, inits, pairs

BASE = dict(regions=(1, 1), orth=0.0, depth=1, comps=(0, 1), states=(2, 4), rows=(3, 7), evs=4, guard=0.35,
            action=0.8, ints=0.0, anon=0.0, pseudo=0.0, hist=0.0, defer=0.0, cb=0.5, handler=0.5, deps=(0, 1),
            share=0.15, chain=0.1, custom=0.0, loop=False, log=0.0)


def profile(**kw):
    p = dict(BASE)
    p.update(kw)
    return p


def steps(m, completion):
    """the rows (all, or the event-less ones) as a graph over the sub states"""
    comps = m['comps']

    def entry_of(p):
        return (p, inits(m, p)[0])
    edges = {}
    for p in comps:
        for r in comps[p]['rows']:
            if completion and r['ev'] != 'none':
                continue
            if r['sk'] == 'st':
                srcs = [(r['s'], s) for s in children(m, r['s'])] if r['s'] in comps else [(p, r['s'])]
            else:
                srcs = [(r['sp'], r['s'])]
            if r['tk'] == 'st':
                tgts = [entry_of(r['t'])] if r['t'] in comps else [(p, r['t'])]
            elif r['tk'] == 'hist':
                tgts = [(r['tp'], s) for s in children(m, r['tp'])]
            else:
                tgts = [(r['tp'], r['t'])]
            for a in srcs:
                edges.setdefault(a, set()).update(tgts)
    return edges


def reach(edges, start):
    seen, todo = set(start), list(start)
    while todo:
        for y in edges.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def lively(m):
    """most sub states are reachable, and the machine can return from most of them"""
    edges = steps(m, False)
    first = [(p, s) for p in m['comps'] for s in inits(m, p) if p == m['root'] or len(inits(m, p)) > 1]
    places = set(pairs(m))
    seen = reach(edges, first) & places
    back = {}
    for x, ys in edges.items():
        for y in ys:
            back.setdefault(y, set()).add(x)
    home = reach(back, first)
    return len(seen) >= 0.8 * len(places) and len(seen & home) >= 0.7 * len(places)


def acyclic(m):
    """the completion graph over sub states has no cycle"""
    edges = steps(m, True)
    seen, onstack = set(), set()

    def visit(x):
        if x in onstack:
            return False
        if x in seen:
            return True
        seen.add(x)
        onstack.add(x)
        ok = all(visit(y) for y in edges.get(x, ()))
        onstack.discard(x)
        return ok
    return all(visit(x) for x in list(edges))


def generate(rng, name, prof):
    while True:
        m = _try(rng, name, prof)
        if m is not None and (m['loop'] or acyclic(m)) and lively(m):
            return m


def _try(rng, name, pf):
    evs = ['e%d' % i for i in range(1, pf['evs'] + 1)]
    nroot = rng.randint(*pf['regions'])
    ncomp = rng.randint(*pf['comps'])
    orth = nroot == 1 and ncomp > 0 and rng.random() < pf['orth']

    def acts(n):
        code = 'a' * n
        if rng.random() < pf['log']:
            i = rng.randint(0, n)
            code = code[:i] + 'L' + code[i:]
            if not pf['loop'] and rng.random() < 0.4:
                code = 'L'
        return code
    pool = iter('ABCDEFGHIJKLMNOTUVWXYZ')
    comp_names = ['P', 'Q', 'S'][:ncomp]
    parent_of = {}
    for i, c in enumerate(comp_names):
        cands = ['R'] + (comp_names[:i] if pf['depth'] > 1 and not orth else [])
        parent_of[c] = rng.choice(cands)
    # composites that occur only in pseudo states
    hidden = [c for c in comp_names if pf['pseudo'] > 0 and rng.random() < 0.2]
    leafs, regs = {}, {}
    all_leaf = []
    for c in ['R'] + comp_names:
        n = max(rng.randint(*pf['states']), nroot if c == 'R' else 1)
        if c == 'R':
            k = nroot
        elif orth and (c == 'P' or rng.random() < 0.5):
            k = rng.choice([2, 2, 3])
        else:
            k = 1
        n = max(n, k)
        ls = []
        for _ in range(n):
            if all_leaf and rng.random() < pf['share']:
                s = rng.choice(all_leaf)
                if s in ls:
                    s = next(pool, None)
            else:
                s = next(pool, None)
            if s is None:
                return None
            ls.append(s)
            if s not in all_leaf:
                all_leaf.append(s)
        leafs[c] = ls
        regs[c] = ls[:k]
    comps = {}
    customs = []
    if pf['custom']:
        inner = [s for s in all_leaf if not any(s in regs[c] for c in regs)]
        if not inner:
            return None
        customs = rng.sample(inner, min(len(inner), rng.choice([1, 1, 2])))
    for c in ['R'] + comp_names:
        kids = [x for x in comp_names if parent_of[x] == c]
        srcs = leafs[c] + kids
        rows, marked = [], set()
        nrows = rng.randint(*pf['rows']) + len(kids) * 2
        plan = []
        # every initial state and every sub composite occurs
        for s in regs[c]:
            plan.append((s, None))
        for k in kids:
            plan.append((None, k))
            plan.append((k, None))
        while len(plan) < nrows:
            plan.append((None, None))
        rng.shuffle(plan)
        # initial states are declared in order
        order = [s for s in regs[c]]
        it = iter(order)
        plan = [(next(it), t) if s in order else (s, t) for s, t in plan]

        def target(t):
            if t is None:
                t = rng.choice(srcs)
            if t in kids:
                x = rng.random()
                if t in hidden:
                    x *= pf['hist'] + pf['pseudo']
                if x < pf['hist']:
                    return 'hist(%s)' % t
                if x < pf['hist'] + pf['pseudo']:
                    return '%s(%s,%s)' % (rng.choice(['entry', 'direct']), t, rng.choice([x for x in leafs[t] if x not in customs]))
            return t
        first = True
        for s, t in plan:
            kid_forced = t in kids
            if s is None:
                s = rng.choice(srcs)
            src = s
            if s in kids and (s in hidden or rng.random() < pf['pseudo']):
                src = '%s(%s,%s)' % (rng.choice(['exit', 'direct']), s, rng.choice(leafs[s]))
            tg = t if kid_forced and t not in hidden else target(t)
            ev = None if rng.random() < pf['anon'] else rng.choice(evs)
            custom_here = tg in customs
            r = ''
            if src in regs[c]:
                r += '*'
            r += src
            if ev:
                r += ' + ' + ev
            if rng.random() < pf['guard'] or ev is None:
                r += ' [g]'
            if custom_here:
                r += ' / ' + rng.choice(['C', 'C', 'C', 'C', 'R', 'R', 'CR', 'RC', 'CC'])
            elif rng.random() < pf['action'] or (pf['loop'] and ev is None):
                n = rng.choice([2, 3]) if rng.random() < pf['chain'] else 1
                r += ' / ' + acts(n)
            r += ' = ' + tg
            rows.append(r)
        comps[c] = rows
    # all named sub states of pseudo states occur as plain states of their composite
    seen = {}
    for c in comps:
        seen[c] = set()
        for r in comps[c]:
            body = r.replace('*', '')
            for x in (body.split('+')[0].split('[')[0].split('/')[0].split('=')[0].strip(), r.split('=')[1].strip()):
                if '(' not in x:
                    seen[c].add(x)
    import re
    for c in comps:
        for r in comps[c]:
            for k, p, s in re.findall(r'(entry|direct|exit)\((\w+),(\w+)\)', r):
                if s not in seen[p]:
                    return None
    present = set().union(*seen.values())
    leaf_all = [s for s in all_leaf if s in present]
    entry = [s for s in leaf_all + comp_names if rng.random() < pf['cb']]
    exit_ = [s for s in leaf_all + comp_names if rng.random() < pf['cb']]
    defer = {}
    if pf['defer']:
        for s in leaf_all:
            if rng.random() < pf['defer']:
                defer[s] = ' '.join(rng.sample(evs, rng.choice([1, 1, 2])))
    ints = {}
    if pf['ints']:
        initials = set(sum(regs.values(), []))
        owners = [s for s in leaf_all if s not in initials] + comp_names + ['R']
        for s in owners:
            if rng.random() < pf['ints']:
                lst = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    e = rng.choice(evs)
                    g = rng.random() < 0.4
                    a = rng.random() < 0.85
                    lst.append(e + (' [g]' if g else '') + (' / ' + acts(1) if a else ''))
                ints[s] = lst
    # an event that is deferred has to occur in a table
    used = {x for c in comps for r in comps[c] for x in re.findall(r'\+ (e\d)', r)}
    used |= {r.split()[0] for s in ints for r in ints[s]}
    defer = {s: ' '.join(e for e in d.split() if e in used) for s, d in defer.items()}
    defer = {s: d for s, d in defer.items() if d}
    m = machine(name, comps, ints=ints, entry=' '.join(entry), exit=' '.join(exit_), defer=defer,
                handler=rng.random() < pf['handler'], deps=rng.randint(*pf['deps']),
                custom=' '.join(x for x in customs if x in present), tag='custom' if customs else '', loop=pf['loop'],
                mc=dict(throw=False, nest=[], nests=1, set=False, dep=False, q=2, fine=False))
    m['explore'] = bool(customs)
    if customs and not any(x in present for x in customs):
        return None
    if len(m['evs']) == 0:
        return None
    m['props'] = []
    m['comps_dsl'] = comps
    m['values'] = not customs and rng.random() < 0.3
    m['samedep'] = rng.random() < 0.4
    return m


PROFILES = dict(
    flat=profile(states=(3, 4), rows=(6, 10)),
    flatint=profile(states=(3, 4), rows=(6, 10), ints=0.6, handler=0.8),
    flatanon=profile(states=(3, 4), rows=(6, 10), anon=0.3),
    intanon=profile(states=(3, 4), rows=(5, 8), anon=0.35, ints=0.7),
    intloop=profile(comps=(0, 1), states=(3, 4), rows=(5, 8), anon=0.35, ints=0.6, loop=True),
    flatdefer=profile(states=(3, 4), rows=(6, 10), defer=0.5, evs=4),
    hier=profile(comps=(1, 2), pseudo=0.3, hist=0.1),
    hierint=profile(comps=(1, 2), pseudo=0.15, ints=0.5, handler=0.8),
    deep=profile(depth=2, comps=(2, 3), pseudo=0.2, hist=0.1, states=(2, 3), rows=(2, 5)),
    reg=profile(regions=(2, 3), rows=(4, 8), states=(3, 5)),
    regsub=profile(regions=(2, 2), comps=(1, 2), pseudo=0.2, hist=0.15, states=(3, 4)),
    reganon=profile(regions=(2, 3), anon=0.3, rows=(4, 8), states=(3, 5)),
    orth=profile(comps=(1, 2), orth=1.0, pseudo=0.2, hist=0.15),
    orthanon=profile(comps=(1, 2), orth=1.0, pseudo=0.15, hist=0.1, anon=0.2),
    orthdefer=profile(comps=(1, 2), orth=1.0, defer=0.35),
    hist=profile(comps=(1, 2), pseudo=0.2, hist=0.5),
    histdeep=profile(comps=(2, 3), depth=2, pseudo=0.1, hist=0.45, states=(2, 3), rows=(2, 5)),
    histreg=profile(regions=(2, 2), comps=(1, 2), hist=0.5, states=(3, 4)),
    historth=profile(comps=(1, 2), orth=1.0, hist=0.5, pseudo=0.15),
    hieranon=profile(comps=(1, 2), anon=0.25, pseudo=0.2),
    hierdefer=profile(comps=(1, 2), defer=0.35, ints=0.2),
    regdefer=profile(regions=(2, 2), defer=0.35, states=(3, 4)),
    mix=profile(comps=(1, 2), pseudo=0.2, hist=0.2, ints=0.3, anon=0.12, defer=0.2, handler=0.7, deps=(0, 2)),
    mixreg=profile(regions=(2, 3), comps=(0, 2), pseudo=0.2, hist=0.2, ints=0.3, anon=0.1, defer=0.2, states=(3, 4)),
    mixorth=profile(comps=(1, 2), orth=1.0, pseudo=0.15, hist=0.2, ints=0.3, anon=0.1, defer=0.15),
    share=profile(comps=(1, 2), share=0.6, pseudo=0.2, hist=0.1),
    flatloop=profile(states=(3, 4), rows=(6, 10), anon=0.4, loop=True),
    hierloop=profile(comps=(1, 2), anon=0.3, pseudo=0.2, hist=0.15, loop=True),
    regloop=profile(regions=(2, 3), anon=0.45, rows=(5, 9), states=(3, 4), loop=True),
    orthloop=profile(comps=(1, 2), orth=1.0, anon=0.3, pseudo=0.15, hist=0.15, loop=True),
    loopdefer=profile(states=(3, 4), rows=(6, 10), anon=0.3, defer=0.35, loop=True),
    custom=profile(comps=(0, 1), custom=1.0, states=(3, 4), rows=(6, 9), guard=0.2, cb=0.4, hist=0.1, deps=(0, 0)),
    regmany=profile(regions=(4, 5), states=(6, 7), rows=(8, 12)),
    log=profile(comps=(0, 1), rows=(5, 9), log=0.7, chain=0.3, anon=0.1, ints=0.3, hist=0.1, pseudo=0.2),
    logreg=profile(regions=(2, 2), rows=(5, 8), states=(3, 4), log=0.6, ints=0.2, defer=0.15),
    chain=profile(comps=(0, 1), rows=(5, 9), chain=0.6, deps=(1, 2)),
)


def pool(seed, names, count):
    """`count` machines, round robin over the profiles"""
    res = []
    for i in range(count):
        n = names[i % len(names)]
        rng = random.Random('%d/%s/%d' % (seed, n, i))
        res.append(generate(rng, 'g_%s_%d' % (n, i), PROFILES[n]))
    return res
