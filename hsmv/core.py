"""The conformance pipeline: explore, generate, run, validate, report."""
import json, os, random, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import explore, known, paths, plan, run, validate

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
WORKERS = 8


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []      # (text, replay dict)
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.notes = []

    def violation(self, text, replay):
        self.violations.append((text, replay))

    def finish(self, level='model_checking', assumptions=()):
        os.makedirs(EVID, exist_ok=True)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        lines = []
        for n, (text, rep) in enumerate(self.violations[:5]):
            path = os.path.join(EVID, '%s.violation%d.json' % (self.prop, n + 1))
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, what=text, **rep), f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (self.prop, path))
            print(text)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                           assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 1),
                           violations=len(self.violations)), f, indent=1)
        for n in self.notes:
            print('NOTE', n)
        for l in lines:
            print(l)
        print('%s %s: %d states, %d transitions explored; %d traces (%d calls) of the implementation validated; %.0f s' % (
            self.prop, 'VIOLATED' if lines else 'held', self.cov['states'], self.cov['transitions'],
            self.cov['traces_validated_against_impl'], self.cov.get('calls_validated', 0), time.time() - self.t0))
        return 1 if lines else 0


def compact(m):
    """a machine description for reports"""
    def ref(k, p, s):
        return s if k == 'st' else '%s(%s)' % (k, ','.join(x for x in (p, s) if x))
    d = {}
    for c, t in m['comps'].items():
        d[c] = ['%s%s%s%s%s = %s' % ('*' if r['ini'] else '', ref(r['sk'], r['sp'], r['s']),
                                     '' if r['ev'] == 'none' else ' + ' + r['ev'],
                                     ' [guard %d]' % r['id'] if r['g'] else '',
                                     ''.join(' / %s %s' % (a['k'], a['n']) for a in r['a']),
                                     ref(r['tk'], r['tp'], r['t'])) for r in t['rows']]
    return d


def with_new(m, tr, rng):
    n = paths.plain('N', set=paths.any_set(m, rng))
    return [(0, n)] + [(0, s) for s in tr] + [(0, paths.plain('X'))]


class Job:
    """one machine in one build"""

    def __init__(self, m, tag='', header='hsm/hsm.h', notation='postfix', mark='star', san=False):
        self.m, self.tag = m, tag
        self.kw = dict(header=header, notation=notation, mark=mark)
        self.san = san
        self.exe = None
        self.error = None
        self.edges = None
        self.scripts = []
        self.recs = []
        self.cov = (0, 0)
        self.finding = None       # the known finding this machine reproduces


def build_all(jobs, work, timeout=None):
    def one(j):
        try:
            j.exe = run.build(j.m, work, j.tag, san=j.san, **j.kw)
        except run.BuildError as e:
            j.error = str(e)
    ex = ThreadPoolExecutor(WORKERS)
    size = lambda j: sum(len(c['rows']) for c in j.m['comps'].values())
    return ex, [ex.submit(one, j) for j in sorted(jobs, key=size, reverse=True)]     # the longest first


# properties of which some walks pile up hundreds of deferred events or completion passes
FLOOD = {'C06', 'C10', 'C16'}


def make_scripts(j, rng, prop, cover_steps, walks, walk_len):
    m = j.m
    kinds = plan.enrich_of(prop)
    scripts = []
    if j.edges is not None:
        tr, c, n = paths.cover(m, j.edges, rng, cover_steps)
        j.cov = (c, n)
        scripts += [with_new(m, paths.enrich(m, t, rng, kinds, False), rng) for t in tr]
    if m['tag'] != 'custom':
        for t in paths.random_walks(m, rng, walks, walk_len, prop in FLOOD):
            scripts.append(with_new(m, paths.enrich(m, t, rng, kinds, True), rng))
    return scripts


def interleave(m, rng, scripts):
    """groups of instances whose calls are interleaved; some calls to one happen inside a callback
    of another"""
    res = []
    i = 0
    while i < len(scripts):
        k = rng.choice([2, 3])
        grp = scripts[i:i + k]
        i += k
        qs = [[(n, s) for _, s in g] for n, g in enumerate(grp)]
        out = []
        while any(qs):
            q = rng.choice([x for x in qs if x])
            out.append(q.pop(0))
        for k in range(len(out) - 1):
            (a, s), (b, t) = out[k:k + 2]
            if a != b and t['op'] == 'P' and 'inside' not in (out[k - 1][1] if k else {}) and rng.random() < 0.3:
                cbs = paths.callbacks(m, t['ev'])
                if cbs:
                    out[k] = (a, dict(s, inside=list(rng.choice(cbs))))
        res.append(out)
    return res


def run_jobs(jobs, timeout=120):
    def one(j):
        j.recs = run.run(j.exe, j.scripts, timeout=timeout, san=j.san)
    with ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(one, [j for j in jobs if j.exe]))


def collect(jobs):
    """-> machines, traces, origin of each trace (job, script number, instance)"""
    ms, traces, origin = [], [], []
    for k, j in enumerate(jobs):
        ms.append(j.m)
        for n, (sc, rec) in enumerate(zip(j.scripts, j.recs)):
            if rec is None:
                continue
            for inst in sorted({i for i, _ in sc}):
                steps = validate.join(j.m, sc, rec, inst)
                if steps:
                    traces.append((k, steps))
                    origin.append((j, n, inst))
    return ms, traces, origin


def replay_of(j, n, inst, rj):
    upto = 0
    count = -1
    for pos, (i, s) in enumerate(j.scripts[n]):
        if i == inst:
            count += 1
            if count == rj['step']:
                upto = pos
                break
    recs = j.recs[n][:upto + 1]
    end = upto + 2 if 'inside' in j.scripts[n][upto][1] else upto + 1
    return dict(machine=j.m, build=j.kw, script=j.scripts[n][:end], recorded=recs[-4:], instance=inst,
                observed=recs[upto] if upto < len(recs) else recs[-1] if recs else None,
                expected=rj['expected'], contradicts=[p for p in rj['props'] if p != 'ANY'])


def describe(j, n, inst, rj):
    sc = j.scripts[n]
    mine = [s for i, s in sc if i == inst]
    s = mine[rj['step']]
    return 'machine %s%s: call %d (%s) contradicts %s' % (
        j.m['name'], ' (%s)' % ', '.join(str(v) for v in j.kw.values() if v not in ('hsm/hsm.h', 'star')),
        rj['step'], s['op'] + (' ' + s['ev'] if s['ev'] else ''), ' '.join(p for p in rj['props'] if p != 'ANY'))


def tmpdir():
    return tempfile.mkdtemp(prefix='hsmv_')


def workdir(fn):
    def f(*a, **k):
        w = tmpdir()
        try:
            return fn(w, *a, **k)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    return f


def explore_jobs(rep, jobs, work, cap=0):
    """explores the machines of the jobs, completely or up to a number of states"""
    edges, st = explore.explore([j.m for j in jobs], work, timeout=1500, cap=cap)
    for j, e in zip(jobs, edges):
        j.edges = e
    rep.cov['states'] += st['distinct']
    rep.cov['transitions'] += st['generated']
    rep.cov['edges_of_the_model'] = rep.cov.get('edges_of_the_model', 0) + sum(map(len, edges))


def prepare(rep, jobs, to_explore, work):
    """builds all jobs while TLC explores the machines; to_explore: [(jobs, cap)]"""
    ex, fut = build_all(jobs, work)
    try:
        for js, cap in to_explore:
            if js:
                explore_jobs(rep, js, work, cap)
    finally:
        for f in fut:
            f.result()
        ex.shutdown()


@workdir
def standard(work, prop, tier, seed, accept=None, header='hsm/hsm.h'):
    """accept: set of attributed properties that count for this check (default: prop)"""
    rep = Report(prop, tier, seed)
    rng = random.Random('%s/%d' % (prop, seed))
    sc, gen = plan.machines(prop, tier, seed)
    thorough = tier == 'thorough'
    # every third hand-written machine has callables that differ by value only
    sc = [dict(m, values=True) if (n + seed) % 3 == 0 and m['tag'] != 'custom' else m for n, m in enumerate(sc)]
    jobs = [Job(m, header=header) for m in sc + gen]
    # some machines a second time, with address and undefined behaviour checks
    small = [j.m for j in jobs if sum(len(c['rows']) for c in j.m['comps'].values()) <= (20 if thorough else 8)]
    sane = [Job(m, tag='_san', header=header, san=True)
            for m in (small if thorough else rng.sample(small, min(1 if prop != 'C20' else 3, len(small))))]
    jobs += sane
    for k, m, script in known.findings(prop):
        j = Job(m)
        j.finding, j.scripts = k, [script]
        jobs.append(j)
    hand = [j for j in jobs if not j.san and j.m.get('explore', j.m['name'] in {m['name'] for m in sc})]
    prepare(rep, jobs, [(hand, 0 if thorough else 150000), ([j for j in jobs if j not in hand and not j.finding and not j.san], 400000 if thorough else 8000)], work)
    build_errors(rep, jobs)
    for j in jobs:
        if j.finding:
            continue
        if j.san:
            j.edges = next(x for x in jobs if x.m is j.m).edges
            j.scripts = make_scripts(j, rng, prop, 1000 if thorough else 150, 10 if thorough else 3, 40)
            continue
        j.scripts = make_scripts(j, rng, prop, 6000 if thorough else 700, 40 if thorough else 10, 40)
    run_jobs(jobs, timeout=600 if thorough else 120)
    finish(rep, work, jobs, accept or {prop})
    return rep.finish(assumptions=ASSUME)


ASSUME = ['machines of the supported class (DESIGN.md); guards are constant during one API call',
          'one compiler (clang++ -std=c++17 -O0, g++ as fallback), libstdc++ with assertions']


def evaluate(rep, work, jobs):
    """validates what the jobs recorded -> (rejects, origin, traces)"""
    jobs = [j for j in jobs if j.exe]
    ms, traces, origin = collect(jobs)
    rejects, st = validate.validate(ms, traces, work)
    rep.cov['states'] += st['distinct']
    rep.cov['transitions'] += st['generated']
    rep.cov['traces_validated_against_impl'] += len(traces) - len(rejects)
    rep.cov['calls_validated'] = rep.cov.get('calls_validated', 0) + sum(len(t[1]) for t in traces)
    rep.cov['machines'] = rep.cov.get('machines', 0) + len(jobs)
    rep.cov['edges_covered_in_the_implementation'] = \
        rep.cov.get('edges_covered_in_the_implementation', 0) + sum(j.cov[0] for j in jobs)
    rep.cov['callbacks_observed'] = rep.cov.get('callbacks_observed', 0) + sum(len(s['out']) for _, t in traces for s in t)
    rep.cov['rejected_traces'] = rep.cov.get('rejected_traces', 0) + len(rejects)
    for t, o in list(zip(traces, origin))[:400:200]:
        rep.cov['samples'].append(dict(machine=compact(o[0].m), calls=[
            dict(op=s['op'], ev=s['ev'], true_guards=s['tv'], callbacks=['%s %s' % (x['k'], x['n']) for x in s['out']],
                 ret=s['ret'], regions=s['isr']) for s in t[1][:5]]))
    return rejects, origin, traces


def corrupt(rng, step):
    """changes what was observed in one step, so that the specification must reject it"""
    s = json.loads(json.dumps(step))
    eff = [k for k, x in enumerate(s['out']) if x['k'] != 'guard']
    kinds = ['ret', 'region']
    if eff:
        kinds += ['drop', 'twice', 'event', 'data']
    if len(eff) > 1:
        kinds.append('swap')
    kind = rng.choice(kinds)
    if kind == 'ret':
        s['ret'] = not s['ret']
    elif kind == 'region':
        s['isr'] = s['isr'][:-1] + [[['?', '?']]]
    elif kind == 'drop':
        del s['out'][rng.choice(eff)]
    elif kind == 'twice':
        k = rng.choice(eff)
        s['out'].insert(k, s['out'][k])
    elif kind == 'event':
        s['out'][rng.choice(eff)]['id'] += 7
    elif kind == 'data':
        s['out'][rng.choice(eff)]['sd'] += 7
    else:
        a, b = rng.sample(eff, 2)
        if s['out'][a] == s['out'][b]:
            return None, s
        s['out'][a], s['out'][b] = s['out'][b], s['out'][a]
    return kind, s


def self_test(rep, work, jobs, traces, rejects, rng, count=40):
    """the binding must not be vacuous: accepted traces with one corrupted step are rejected there"""
    bad = {r['trace'] for r in rejects}
    good = [k for k in range(len(traces)) if k not in bad and any(s['op'] == 'P' for s in traces[k][1])]
    sel, at = [], []
    for k in rng.sample(good, min(count, len(good))):
        steps = traces[k][1]
        i = rng.choice([j for j, s in enumerate(steps) if s['op'] == 'P'])
        kind, s = corrupt(rng, steps[i])
        if kind:
            sel.append((traces[k][0], steps[:i] + [s]))
            at.append((i, kind))
    ms = [j.m for j in jobs if j.exe]
    if not sel:
        return
    rej, _ = validate.validate(ms, sel, work)
    got = {r['trace']: r['step'] for r in rej}
    for k, (i, kind) in enumerate(at):
        if got.get(k) != i:
            raise AssertionError('a corrupted trace (%s, machine %s) was accepted' % (kind, ms[sel[k][0]]['name']))
    rep.cov['corrupted_traces_rejected'] = len(at)


def finish(rep, work, jobs, accept):
    rejects, origin, traces = evaluate(rep, work, jobs)
    self_test(rep, work, jobs, traces, rejects, random.Random(rep.seed))
    report_rejects(rep, work, rejects, origin, accept)


def report_rejects(rep, work, rejects, origin, accept):
    hits, other = [], {}
    for r in rejects:
        j, n, inst = origin[r['trace']]
        if j.finding and r['step'] == j.finding['fails_at']:
            rep.known.append('%s (%s: %s)' % (j.finding['what'], j.finding['id'], json.dumps(j.finding['calls'])))
            continue
        if set(r['props']) & accept:
            hits.append((r['step'], j, n, inst, r))
        else:
            for p in r['props']:
                other[p] = other.get(p, 0) + 1
    if other:
        rep.notes.append('rejected for other properties: %s' % other)
    confirm(rep, work, [(r, j, n, inst) for _, j, n, inst, r in hits])


def confirm(rep, work, hits, most=5):
    """reports rejections that a second run repeats: one per machine and build, shortest first"""
    seen, picked = set(), []
    for r, j, n, inst in sorted(hits, key=lambda x: x[0]['step']):
        if (j.m['name'], j.tag) not in seen and len(picked) < most:
            seen.add((j.m['name'], j.tag))
            picked.append((r, j, n, inst))
    for _ in range(3):
        if not picked:
            return
        traces = []
        for k, (r, j, n, inst) in enumerate(picked):
            recs = run.run(j.exe, j.scripts, timeout=60, san=j.san)
            steps = validate.join(j.m, j.scripts[n], recs[n] or [], inst)
            traces.append((k, steps))
        again, _ = validate.validate([j.m for _, j, _, _ in picked], [t for t in traces if t[1]], work)
        index = [k for k, st in traces if st]
        repeated = {index[x['trace']] for x in again}
        for k in sorted(repeated):
            r, j, n, inst = picked[k]
            rep.violation(describe(j, n, inst, r), replay_of(j, n, inst, r))
        picked = [x for k, x in enumerate(picked) if k not in repeated]
        if repeated:
            break
    for r, j, n, inst in picked:
        rep.notes.append('not repeated: ' + describe(j, n, inst, r))


# ---- instances (C14) ------------------------------------------------------------------
def without_moves(script, inst):
    return [(0, {k: v for k, v in s.items() if k != 'inside'}) for i, s in script if i == inst and s['op'] != 'M']


@workdir
def instances(work, prop, tier, seed):
    """Interleaved and moved instances. The property is contradicted where an instance leaves the
    specification although the same calls, made to a machine alone in its process and never
    moved, do not."""
    rep = Report(prop, tier, seed)
    rng = random.Random('%s/%d' % (prop, seed))
    sc, gen = plan.machines(prop, tier, seed)
    thorough = tier == 'thorough'
    jobs = [Job(m) for m in sc + gen]
    prepare(rep, jobs, [([j for j in jobs if j.m['name'] in {m['name'] for m in sc}], 0)], work)
    build_errors(rep, jobs)
    for j in jobs:
        if j.exe:
            j.scripts = interleave(j.m, rng, make_scripts(j, rng, prop, 4000 if thorough else 500, 60 if thorough else 16, 30))
            # solo: every instance in a process of its own
            j.solo = [(n, i, without_moves(g, i)) for n, g in enumerate(j.scripts) for i in sorted({x for x, _ in g})]
    def one(j):
        j.recs = run.run(j.exe, j.scripts, timeout=60)
        j.srecs = [run.run(j.exe, [s], timeout=20)[0] for _, _, s in j.solo]
    with ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(one, [j for j in jobs if j.exe]))
    rejects, origin, _ = evaluate(rep, work, jobs)
    solos = []
    for j in jobs:
        if j.exe:
            k = Job(j.m)
            k.exe, k.scripts, k.recs = j.exe, [s for _, _, s in j.solo], j.srecs
            solos.append(k)
    rej2, org2, _ = evaluate(rep, work, solos)
    bad = {}
    for r in rej2:
        k, n, _ = org2[r['trace']]
        bad[k.m['name'], n] = r['step']
    where = {}
    for j in jobs:
        if j.exe:
            for pos, (n, i, _) in enumerate(j.solo):
                where[j.m['name'], n, i] = pos
    hits = []
    for r in rejects:
        j, n, inst = origin[r['trace']]
        mine = [s for i, s in j.scripts[n] if i == inst]
        at = sum(1 for s in mine[:r['step'] + 1] if s['op'] != 'M') - 1
        solo = bad.get((j.m['name'], where[j.m['name'], n, inst]))
        if solo is not None and solo <= at:
            continue     # a machine alone does the same: not a matter of isolation
        hits.append((dict(r, props=[prop]), j, n, inst))
    confirm(rep, work, hits)
    return rep.finish(assumptions=ASSUME)


def build_errors(rep, jobs):
    for j in jobs:
        if j.error:
            rep.violation('machine %s does not compile any more: %s' % (j.m['name'], j.error[:400]),
                          dict(machine=j.m, build=j.kw, compiler=j.error))


# ---- notations (C18) ------------------------------------------------------------------
VARIANTS = [('postfix', 'star'), ('postfix', 'initial'), ('prefix', 'star'), ('prefix', 'initial'),
            ('tuple', 'star'), ('tuple', 'initial')]


@workdir
def notations(work, prop, tier, seed):
    """Every machine in every notation, driven by the same calls. The property is contradicted
    where the specification accepts one notation's behaviour and rejects another's, and on the
    one-row machines, which denote a single transition, where it rejects any."""
    rep = Report(prop, tier, seed)
    rng = random.Random('%s/%d' % (prop, seed))
    sc, gen = plan.machines(prop, tier, seed)
    thorough = tier == 'thorough'
    jobs = []
    for m in sc + gen:
        vs = VARIANTS if thorough or m['name'].startswith('combo') else rng.sample(VARIANTS, 2)
        if not thorough and ('tuple', 'star') not in vs and ('tuple', 'initial') not in vs:
            vs = vs[:1] + [('tuple', 'star')]
        for n, mk in vs:
            jobs.append(Job(m, tag='_%s_%s' % (n, mk), notation=n, mark=mk))
    first = {}
    for j in jobs:
        first.setdefault(j.m['name'], j)
    prepare(rep, jobs, [([first[m['name']] for m in sc], 0)], work)
    built = {j.m['name'] for j in jobs if j.exe}
    for j in jobs:
        if j.error and j.m['name'] in built:
            rep.violation('machine %s does not compile in the %s notation (initial states: %s), but in others: %s' % (
                j.m['name'], j.kw['notation'], j.kw['mark'], j.error[:300]), dict(machine=j.m, build=j.kw, compiler=j.error))
    build_errors(rep, [j for j in jobs if j.m['name'] not in built])
    for j in first.values():
        j.scripts = make_scripts(j, rng, prop, 2500 if thorough else 350, 20 if thorough else 6, 30)
    for j in jobs:
        j.scripts = first[j.m['name']].scripts
        j.cov = first[j.m['name']].cov
    run_jobs(jobs, timeout=60)
    rejects, origin, _ = evaluate(rep, work, jobs)
    at = {}
    for r in rejects:
        j, n, inst = origin[r['trace']]
        at[j.tag, j.m['name'], n] = r
    hits = []
    for r in rejects:
        j, n, inst = origin[r['trace']]
        others = [k for k in jobs if k.m is j.m and k is not j and k.exe]
        if j.m['name'].startswith('combo') or any(
                at.get((k.tag, k.m['name'], n), dict(step=1 << 30))['step'] > r['step'] for k in others):
            hits.append((dict(r, props=[prop]), j, n, inst))
    confirm(rep, work, hits)
    return rep.finish(assumptions=ASSUME)
