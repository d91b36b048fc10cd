"""What each check looks at: machines, and how call sequences are enriched."""
from . import scenarios, generate

# property -> random machine profiles
PROFILES = {
    'C01': 'flat flatint hier hierint reg mix deep share mixreg orth',
    'C02': 'hier share regsub orth deep mixreg hist mixorth histdeep',
    'C03': 'flat flatint reg hier orth mix flatanon mixreg',
    'C04': 'flat hier deep regsub orth flatanon mixorth mix hierloop',
    'C05': 'flatint hierint mixreg mixorth',
    'C06': 'flatanon flatloop hieranon hierloop reganon regloop orthanon orthloop loopdefer intanon intloop',
    'C07': 'reg regmany regsub reganon regdefer mixreg histreg',
    'C08': 'orth orthanon orthdefer historth mixorth',
    'C09': 'hist histdeep histreg historth',
    'C10': 'flatdefer hierdefer regdefer orthdefer',
    'C11': 'mix mixreg regmany mixorth flatdefer flatint hierint',
    'C12': 'flatint flatdefer hierint mixreg mixorth',
    'C13': 'share mix regsub orth deep hieranon hierloop',
    'C14': 'hist flatdefer mixorth regsub mix',
    'C15': 'mix chain mixreg mixorth hierint',
    'C16': 'flatdefer mix mixreg hieranon orthdefer chain',
    'C17': 'regsub share deep reg hist orth',
    'C18': 'flat flatint mix flatanon chain',
    'C19': 'mix mixreg mixorth deep hieranon histdeep chain hierdefer',
    'C20': 'custom',
    'C21': 'chain',
    'C22': 'hier deep share hierint orth histdeep mixorth',
    'C23': 'flat hier reg flatdefer flatloop orth mix chain mixreg hierloop',
    'C24': 'flat hier reg flatdefer flatloop orth mix hist mixreg regloop',
}
PROFILES['C26'] = 'log logreg'
PROFILES['C25'] = 'mix mixreg mixorth deep flatdefer hist'
QUICK_N = {'C18': 5, 'C20': 8, 'C14': 10, 'C19': 12}
DEFAULT_N = 14
THOROUGH_N = 120

ENRICH = {
    'C09': 'set', 'C10': 'dep', 'C12': 'throwrare', 'C13': 'dep set', 'C14': 'move dep', 'C15': 'dep',
    'C16': 'throwrare', 'C17': 'set', 'C26': 'throwrare nestrare', 'C19': 'set throw nest dep', 'C20': 'dep', 'C21': 'throw', 'C22': 'set',
    'C23': 'throw nestrare', 'C24': 'nest throwrare',
}


def machines(prop, tier, seed):
    sc = [m for m in scenarios.ALL if prop in m['props']]
    if prop == 'C19':   # the single header may differ anywhere
        sc += [dict(m, explore=False) for m in scenarios.ALL
               if m not in sc and m['name'] not in ('big', 'many_regions', 'many_regions_orth', 'many_rows')]
    n = THOROUGH_N if tier == 'thorough' else QUICK_N.get(prop, DEFAULT_N)
    gen = generate.pool(seed, PROFILES[prop].split(), n)
    if 'set' in ENRICH.get(prop, ''):
        for m in gen:
            m['mc']['set'] = True
    for m in gen:
        if 'throw' in enrich_of(prop) or m['tag'] == 'custom':
            m['mc']['throw'] = True
        if 'nest' in enrich_of(prop):
            m['mc']['nest'] = m['evs'][:2]
    if prop == 'C15':
        for i, m in enumerate(gen):
            m['deps'] = 1 + i % 3
    if prop == 'C12':
        for m in gen:
            m['handler'] = True
    return sc, gen


def enrich_of(prop):
    return set(ENRICH.get(prop, '').split())
