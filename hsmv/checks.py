"""The checks, one per property."""
import json
from . import core, form, run as runner, validate


def run(prop, tier, seed):
    return CHECKS[prop](prop, tier, seed)


def standard(prop, tier, seed):
    return core.standard(prop, tier, seed)


def c19(prop, tier, seed):
    return core.standard(prop, tier, seed, accept={'ANY'}, header='hsm/gen/hsm.h')


CHECKS = {'C%02d' % n: standard for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 22, 23, 24, 26)}
CHECKS['C19'] = c19
CHECKS['C14'] = core.instances
CHECKS['C18'] = core.notations
CHECKS['C25'] = form.check


@core.workdir
def replay(work, path):
    """repeats the calls of a reported violation against /repo as it is now"""
    with open(path) as f:
        d = json.load(f)
    print(d['property'], d['what'])
    if 'use' in d:
        for ok, text in form.compile_one(work, 0, d['source']):
            print('accepted' if ok else 'rejected\n' + text)
        return 1
    j = core.Job(d['machine'], **d['build'])
    try:
        j.exe = runner.build(j.m, work, **j.kw)
    except runner.BuildError as e:
        print('does not compile:', e)
        return 1
    j.scripts = [[tuple(x) for x in d['script']]]
    j.recs = runner.run(j.exe, j.scripts)
    ms, traces, origin = core.collect([j])
    rejects, _ = validate.validate(ms, traces, work)
    for c, rows in core.compact(j.m).items():
        print('%s:\n    %s' % (c, '\n    '.join(rows)))
    for (i, s), r in zip(j.scripts[0], j.recs[0]):
        print('instance %d: %s %s guards true: %s %s' % (i, s['op'], s['ev'] or s['p'] + ' ' + s['s'], s['tv'],
              'throws: %s' % s['thr'] if s['thr'] else ''))
        print('   ', 'crash' if 'crash' in r else '%s -> %s, %s' % (
            ' '.join('%s(%s)' % (x['k'], x['n']) for x in r['out']), r['ret'], r['isr']))
    for r in rejects:
        e = r['expected']
        print('REJECTED at call %d: expected %s -> %s, %s' % (r['step'], ' '.join(
            '%s(%s)' % (x['k'], x['n']) for x in e['out']), e['ret'], e['regs']))
        print('contradicts', ' '.join(r['props']))
    if not rejects:
        print('accepted: the specification allows everything that was observed')
    return 1 if rejects else 0
