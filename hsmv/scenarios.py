"""Hand-written machines. Each aims at the situations of some properties; `props`
says which checks use it. All of them are inside the class of machines described in
DESIGN.md (no known finding changes what they do)."""
from .machine import machine

ALL = []


def sc(name, props, comps, mc=None, **kw):
    d = dict(throw=False, nest=[], nests=1, set=False, dep=False, q=2, fine=False)
    d.update(mc or {})
    m = machine(name, comps, mc=d, tag=kw.pop('tag', ''), **kw)
    m['props'] = props.split()
    ALL.append(m)
    return m


# ---- flat machines ---------------------------------------------------------------
sc('flat_prio', 'C01 C02 C03 C04 C11 C13 C16 C18 C19 C23', {
    'R': ['*A + e1 [g] / a = B', 'A + e1 / a = C', 'A + e1 [g] / a = A', 'A + e1 [g] = D',
          'B + e1 / a = A', 'B + e2 [g] / a = C', 'B + e2 [g] / a = D', 'C + e1 [g] / a = C',
          'C + e2 = A', 'D + e1 / a = D', 'D + e2 [g] / a = A', 'D + e3 [g] / a = B']},
   entry='A B C', exit='A C D', deps=1)

sc('flat_unexp', 'C01 C03 C11 C12 C13 C15 C16 C17 C19', {
    'R': ['*A + e1 / a = B', 'B + e2 [g] / a = A', 'B + e3 = C', 'C + e1 [g] = A', 'C + e4 / a = C']},
   entry='A B C', exit='A B C', handler=True, deps=2, mc=dict(set=True))

sc('flat_int', 'C01 C03 C05 C11 C12 C13 C16 C18 C19', {
    'R': ['*A + e1 / a = B', 'B + e2 [g] / a = A', 'B + e3 [g] / a = C', 'C + e1 / a = A', 'B + e1 [g] = B']},
   ints={'B': ['e2 [g] / a', 'e2 / a', 'e4 / a', 'e5 [g] / a'], 'C': ['e2', 'e3 [g]', 'e4 [g] / a', 'e4 / a']},
   entry='A B C', exit='A B C', handler=True, deps=1)

# callables whose types are equal
sc('same_int', 'C01 C03 C05 C11 C18 C21', {
    'R': ['*A + e1 / a = B', 'B + e1 [g] / a = A', 'B + e1 [g] / aa = P', 'P + e1 / a = B', 'B + e3 [g] / a = B'],
    'P': ['*X + e4 / a = Y', 'Y + e4 [g] / a = X', 'Y + e4 [g] / a = Y']},
   ints={'B': ['e2 [g] / a', 'e2 [g] / a', 'e3 / a', 'e2 [g] / a'], 'P': ['e2 [g] / a', 'e2 [g] / a'],
         'Y': ['e2 [g] / a', 'e2', 'e2 [g]'], 'R': ['e2 [g] / a', 'e2 [g] / a']},
   exit='B', handler=True, values=True)

# composites that are entered and left by pseudo states only
sc('pseudo_int', 'C01 C02 C05 C09 C11 C12 C18 C22', {
    'R': ['*A + e1 / a = entry(P,Y)', 'exit(P,Y) + e1 [g] / a = A', 'A + e2 = hist(P)', 'direct(P,X) + e2 / a = A',
          'A + e3 [g] / a = hist(Q)', 'direct(Q,V) + e1 / a = A'],
    'P': ['*X + e3 / a = Y', 'Y + e3 [g] / a = X', 'X + e4 = direct(S,L)', 'exit(S,L) + e4 / a = X'],
    'Q': ['*U + e2 / a = V', 'V + e2 [g] = U'],
    'S': ['*K + e3 = L', 'L + e3 [g] / a = K']},
   ints={'P': ['e5 / a', 'e4 [g] / a', 'e6 [g] / a'], 'Y': ['e5 [g] / a'], 'Q': ['e6 [g] / a', 'e1 / a'], 'S': ['e6', 'e5 / a']},
   entry='Y', exit='P Y', handler=True)

# sub states that only pseudo states lead to
sc('entry_only', 'C01 C02 C05 C10 C12 C22', {
    'R': ['*A + e1 / a = entry(P,Y)', 'A + e2 / a = direct(P,Z)', 'P + e3 / a = A', 'A + e4 = P', 'P + e1 [g] / a = P'],
    'P': ['*X + e1 [g] / a = X', 'Y + e4 [g] / a = X', 'Z + e4 / a = X']},
   ints={'P': ['e6 [g] / a'], 'Y': ['e5 [g] / a', 'e6'], 'Z': ['e5 / a'], 'R': ['e5 / a']},
   defer={'Z': 'e2'}, entry='X', exit='P X', handler=True, mc=dict(q=1))

sc('flat_rootint', 'C01 C05 C11 C12 C18', {
    'R': ['*A + e1 / a = B', 'B + e1 [g] / a = A', 'B + e2 / a = C', 'C + e1 = A']},
   ints={'R': ['e2 [g] / a', 'e3 / a', 'e4 [g] / a', 'e1 / a'], 'B': ['e3 [g] / a', 'e4 / a']},
   entry='A B', exit='B', handler=True, deps=1)

sc('flat_anon', 'C01 C04 C06 C11 C13 C16 C18 C19 C23', {
    'R': ['*A + e1 [g] / a = B', 'A + e2 = C', 'A + e3 / a = E', 'B [g] / a = C', 'B [g] / a = D',
          'C [g] / a = D', 'C [g] = E', 'D / a = E', 'E + e1 = A', 'E + e2 / a = B', 'E + e3 [g] / a = E',
          'C + e1 [g] / a = A', 'B + e1 / a = B']},
   entry='B C D E', exit='A B C D', deps=1, handler=True)

sc('flat_defer', 'C10 C11 C12 C15 C16 C18 C19 C23', {
    'R': ['*A + e1 / a = B', 'B + e1 [g] / a = A', 'B + e2 [g] / a = B', 'B + e3 / a = C', 'C + e1 = A',
          'C + e2 / a = C', 'A + e4 / a = A']},
   defer={'A': 'e2 e3', 'C': 'e3'}, entry='A B C', exit='A B', handler=True, deps=1, mc=dict(q=3))

sc('flat_defer2', 'C10 C06 C11 C24', {
    'R': ['*A + e1 / a = B', 'B + e1 / a = A', 'B + e2 / a = D', 'D [g] / a = B', 'D + e1 = A', 'D + e2 / a = D',
          'B + e3 [g] / a = A', 'A + e3 / a = A']},
   defer={'A': 'e2', 'D': 'e3'}, entry='B D', exit='A', deps=1, mc=dict(q=3))

sc('defer_sink', 'C10 C11 C12', {
    'R': ['*A + e1 / a = B', 'B + e2 / a = S', 'A + e2 = A', 'B + e3 [g] / a = A']},
   defer={'S': 'e1 e2', 'A': 'e3'}, entry='S', exit='A', handler=True, mc=dict(set=True, q=3))

# deferring states that no row, or only one from inside a composite, leads to
sc('defer_only', 'C10 C11 C12', {
    'R': ['*A + e1 / a = P', 'P + e2 / a = B', 'exit(P,Y) + e3 [g] / a = Z', 'B + e4 [g] / a = C', 'C + e4 / a = P'],
    'P': ['*X + e1 / a = Y', 'Y + e1 [g] / a = X']},
   defer={'A': 'e2 e4', 'Z': 'e1 e2', 'X': 'e4'}, entry='P Z', exit='A Y', handler=True, mc=dict(set=True, q=1))

sc('defer_reg', 'C07 C10 C11 C12', {
    'R': ['*A + e1 / a = B', '*X + e1 [g] / a = Y', 'B + e2 / a = A', 'Y + e2 [g] / a = X', 'Y + e3 / a = Y',
          'B + e3 = B']},
   defer={'A': 'e2 e3', 'X': 'e2'}, entry='B Y', exit='A X', handler=True, deps=1, mc=dict(q=2))

# ---- hierarchy ---------------------------------------------------------------------
sc('hier', 'C01 C02 C04 C05 C13 C15 C16 C17 C18 C19 C22', {
    'R': ['*A + e1 / a = P', 'P + e2 [g] / a = A', 'P + e3 / a = B', 'B + e1 [g] / a = P', 'A + e3 [g] = B'],
    'P': ['*X + e1 / a = Y', 'Y + e1 [g] / a = X', 'Y + e2 [g] / a = Z', 'Z + e2 / a = X', 'X + e3 [g] = Z']},
   ints={'P': ['e4 [g] / a', 'e1 / a'], 'Y': ['e4 / a', 'e3 [g] / a']},
   entry='A B P X Y', exit='A P X Y', handler=True, deps=2)

sc('hier_pseudo', 'C02 C04 C08 C09 C16 C17 C18 C19 C22', {
    'R': ['*A + e1 / a = entry(P,Y)', 'A + e2 / a = direct(P,Z)', 'A + e3 / a = P', 'exit(P,Y) + e2 / a = A',
          'direct(P,Z) + e3 [g] / a = B', 'P + e4 / a = B', 'B + e1 = P', 'B + e2 [g] / a = entry(P,X)',
          'B + e3 / a = hist(P)'],
    'P': ['*X + e1 / a = Y', 'Y + e1 [g] / a = Z', 'Z + e1 = X', 'Y + e3 / a = X', 'Z + e2 / a = Z']},
   entry='A B P X Y', exit='A B P X Y', handler=True, deps=1)

# rows without action: every entry and exit action may be the only callback of its row
sc('bare', 'C04 C19 C22', {
    'R': ['*A + e1 = P', 'P + e1 = B', 'B + e2 = Q', 'exit(P,Y) + e2 = B', 'exit(Q,V) + e1 = B', 'B + e3 = A', 'Q + e4 = hist(P)',
          'B + e4 = P', 'Q + e2 = entry(P,Y)', 'P + e4 = Q'],
    'P': ['*X + e3 = Y', 'Y + e3 = X', 'Y + e5 = Y'],
    'Q': ['*U + e3 = V', 'V + e3 = U']},
   entry='X', exit='A P V')

sc('bare2', 'C04 C19 C22', {
    'R': ['*A + e1 = P', 'P + e1 = B', 'B + e2 = Q', 'exit(P,Y) + e2 = B', 'exit(Q,V) + e1 = B', 'B + e3 = A', 'Q + e4 = hist(P)',
          'B + e4 = P', 'P + e4 = Q', 'Q + e2 = A'],
    'P': ['*X + e3 = Y', 'Y + e3 = X'],
    'Q': ['*U + e3 = V', 'V + e3 = U']},
   entry='A P V', exit='X Q')

sc('hier_deep', 'C01 C02 C04 C05 C09 C17 C22', {
    'R': ['*A + e1 / a = P', 'P + e3 [g] / a = B', 'B + e1 / a = hist(P)', 'B + e2 / a = P', 'A + e2 [g] = B'],
    'P': ['*X + e1 / a = Q', 'X + e2 / a = X2', 'X2 + e1 [g] / a = entry(Q,V)', 'Q + e2 [g] / a = X',
          'X2 + e3 / a = hist(Q)'],
    'Q': ['*U + e1 / a = V', 'V + e1 [g] / a = U', 'V + e2 = U']},
   ints={'P': ['e4 / a'], 'Q': ['e4 [g] / a'], 'V': ['e3 / a']},
   entry='A B P Q X U', exit='A X P Q U', handler=True)

sc('hier_share', 'C02 C13 C17 C22 C09', {
    'R': ['*A + e1 / a = P', 'A + e2 / a = Q', 'A + e3 / a = X', 'P + e4 / a = A', 'Q + e4 [g] / a = A',
          'X + e4 = A', 'X + e1 [g] / a = Y', 'Y + e2 / a = X', 'Y + e4 / a = A'],
    'P': ['*X + e1 / a = Y', 'Y + e2 [g] / a = X', 'Y + e1 / a = Y'],
    'Q': ['*Y + e1 / a = X', 'X + e2 / a = Y', 'X + e3 [g] / a = X']},
   entry='X Y', exit='A X Y', handler=True, deps=1, allq=True)

sc('hier_two', 'C02 C09 C17 C22 C06', {
    'R': ['*A + e1 / a = P', 'A + e2 / a = hist(P)', 'A + e3 / a = hist(Q)', 'P + e2 [g] / a = Q', 'P + e3 / a = A',
          'Q + e2 / a = P', 'Q + e3 [g] / a = A', 'Q + e4 / a = hist(P)'],
    'P': ['*X + e1 / a = Y', 'Y + e1 [g] / a = Z', 'Z + e1 = Y'],
    'Q': ['*U + e1 / a = V', 'V + e1 / a = W', 'W [g] / a = U']},
   entry='P Q X U', exit='P Q A')

sc('hier_anon', 'C01 C02 C04 C06 C22', {
    'R': ['*A + e1 / a = P', 'A + e2 / a = hist(P)', 'P [g] / a = B', 'P + e2 / a = A', 'exit(P,Z) [g] / a = C',
          'B [g] / a = C', 'C + e1 = A', 'B + e1 / a = A'],
    'P': ['*X + e1 / a = Y', 'X [g] / a = Y', 'Y [g] / a = Z', 'Z + e1 / a = X', 'Y + e1 = X']},
   entry='A B C P X Y Z', exit='A B P X Y Z', deps=1)

sc('hier_defer', 'C10 C13 C22 C16', {
    'R': ['*A + e1 / a = P', 'P + e2 / a = A', 'A + e3 / a = B', 'B + e2 = A', 'B + e4 / a = P'],
    'P': ['*X + e1 / a = Y', 'Y + e3 [g] / a = X', 'Y + e4 / a = Y']},
   ints={'P': ['e4 [g] / a']},
   defer={'A': 'e4', 'X': 'e3 e4', 'Y': 'e1'}, entry='P X', exit='Y', deps=1)

# completion transitions after internal ones, and in a state that is entered by set()
sc('int_anon', 'C05 C06 C17', {
    'R': ['*A + e1 / a = B', 'B [g] / a = C', 'C [g] / a = A', 'C + e3 / a = P', 'P [g] / a = A', 'P + e1 / a = B', 'B + e3 = A'],
    'P': ['*X + e1 / a = Y', 'Y [g] / a = Z', 'Z + e3 = X']},
   ints={'B': ['e2 / a', 'e4 [g] / a', 'e4'], 'C': ['e2 [g]', 'e4 / a'], 'P': ['e2 / a', 'e5 [g] / a'], 'Y': ['e4 / a'], 'R': ['e6 / a']},
   entry='B C', exit='A Y', handler=True, loop=True)

# ---- cycles of completion transitions: their guards become false by and by ------------
sc('loop_flat', 'C01 C06 C13 C23', {
    'R': ['*A + e1 / a = B', 'B [g] / a = B', 'B [g] / a = C', 'C [g] / a = B', 'B + e1 = A', 'C + e1 / a = A']},
   entry='B C', exit='A B', deps=1, loop=True)

sc('loop_hier', 'C04 C06 C09 C22', {
    'R': ['*A + e1 / a = P', 'P [g] / a = A', 'A [g] / a = hist(P)', 'A + e2 [g] / a = A', 'P + e2 = A'],
    'P': ['*X + e1 / a = Y', 'Y [g] / a = X', 'Y + e1 / a = X']},
   entry='A P X', exit='P Y', loop=True)

sc('loop_reg', 'C06 C07', {
    'R': ['*A + e1 / a = B', '*X + e1 [g] / a = Y', 'B [g] / a = B', 'A [g] / a = B', 'X [g] / a = Y', 'Y [g] / a = X', 'B + e2 = A']},
   entry='B Y', exit='A X', loop=True)

sc('loop_orth', 'C06 C08', {
    'R': ['*A + e1 / a = P', 'P [g] / a = B', 'B [g] / a = P', 'B + e1 = A', 'A [g] / a = B'],
    'P': ['*X + e1 / a = Y', '*U + e1 / a = V', 'Y [g] / a = X']},
   entry='B P Y', exit='P X', loop=True)

# ---- orthogonal root regions --------------------------------------------------------
sc('reg2', 'C01 C02 C03 C04 C07 C11 C12 C13 C15 C17 C19', {
    'R': ['*A + e1 [g] / a = B', 'B + e2 / a = A', 'B + e1 [g] / a = B', '*X + e1 [g] / a = Y', 'Y + e2 [g] = X',
          'Y + e3 / a = X', 'X + e3 [g] / a = X', 'A + e4 = A']},
   entry='A B X Y', exit='A B X', handler=True, deps=1)

sc('reg3', 'C07 C06 C11 C12 C17 C18', {
    'R': ['*A + e1 / a = B', 'B + e1 [g] / a = A', '*X + e2 / a = Y', 'Y + e1 / a = X', 'Y + e2 [g] / a = Y',
          '*U + e1 [g] = V', 'V + e2 / a = U', 'V + e3 / a = U']},
   ints={'B': ['e3 / a'], 'Y': ['e3 [g] / a']},
   entry='A Y V', exit='A Y U', handler=True)

sc('reg_sub', 'C02 C04 C07 C09 C11 C17 C19 C22', {
    'R': ['*A + e1 / a = P', 'P + e2 [g] / a = A', '*B + e1 [g] / a = C', 'C + e2 / a = B', 'C + e3 / a = Q',
          'Q + e2 [g] / a = hist(P)', 'A + e3 / a = hist(P)', 'Q + e1 / a = B'],
    'P': ['*X + e1 / a = Y', 'Y + e3 [g] / a = X'],
    'Q': ['*U + e3 / a = V', 'V + e3 = U']},
   entry='P X Q U', exit='A B P X Q', handler=True, deps=1)

sc('reg_anon', 'C06 C07 C04', {
    'R': ['*A + e1 / a = B', 'B [g] / a = C', 'C + e1 = A', '*X [g] / a = Y', 'X + e2 / a = X', 'Y [g] / a = Z',
          'Z + e1 [g] / a = X', 'A [g] / a = B', 'C [g] / a = D', 'D + e2 / a = A', 'Z + e2 / a = X']},
   entry='B C Y Z', exit='A B X Y')

sc('reg_share', 'C07 C08 C13 C02 C17', {
    'R': ['*A + e1 [g] / a = B', 'B + e1 [g] / a = C', 'C + e1 / a = A', '*D + e1 [g] / a = A', 'D + e2 / a = B',
          'B + e2 [g] / a = A', '*E + e2 / a = C', 'E + e1 [g] / a = D']},
   entry='A B C', exit='A B', deps=1, handler=True)

sc('reg_set', 'C07 C17 C13 C22', {
    'R': ['*A + e1 / a = P', 'P + e2 / a = A', '*B + e1 [g] / a = C', 'C + e2 / a = B', 'A + e2 = A'],
    'P': ['*X + e1 / a = Y', 'Y + e1 / a = X']},
   entry='P X Y', exit='A X', handler=True, mc=dict(set=True))

# ---- orthogonal composites ----------------------------------------------------------
sc('orth', 'C02 C04 C08 C09 C11 C17 C19 C22', {
    'R': ['*A + e1 / a = P', 'A + e2 / a = hist(P)', 'P + e3 [g] / a = A', 'A + e3 = A', 'exit(P,V) + e4 / a = B',
          'B + e1 / a = entry(P,Y)', 'B + e2 / a = direct(P,Y)', 'B + e4 / a = P'],
    'P': ['*X + e1 [g] / a = Y', 'Y + e2 / a = X', '*U + e1 [g] / a = V', 'V + e2 [g] / a = U']},
   entry='A B P X Y', exit='A B P X', handler=True, deps=1)

sc('orth3', 'C02 C08 C09 C12 C17 C22', {
    'R': ['*A + e1 / a = P', 'A + e2 / a = hist(P)', 'A + e3 / a = Q', 'P + e4 / a = A', 'P + e3 [g] / a = Q',
          'Q + e4 [g] / a = A', 'Q + e2 / a = hist(P)'],
    'P': ['*X + e1 / a = Y', 'Y + e2 / a = X', '*U + e1 [g] / a = V', '*L + e2 / a = K', 'K + e2 [g] / a = L'],
    'Q': ['*X + e1 / a = U', '*Y + e1 [g] / a = V']},
   entry='A P Q X', exit='A P Q', handler=True, deps=1, fewq=False)

sc('orth_anon', 'C06 C08 C02 C04', {
    'R': ['*A + e1 / a = P', 'P [g] / a = B', 'B + e1 / a = A', 'B + e2 / a = hist(P)', 'P + e3 / a = A', 'B [g] / a = C',
          'C + e1 = A'],
    'P': ['*X + e1 / a = Y', 'Y + e2 / a = X', '*U + e1 [g] / a = V', 'V [g] / a = W', 'X [g] / a = Z', 'W + e1 = U',
          'U [g] / a = W', 'Z + e2 / a = X']},
   entry='B P', exit='A P')

sc('orth_defer', 'C08 C10 C11 C12 C22', {
    'R': ['*A + e1 / a = P', 'P + e3 / a = A', 'A + e3 = A', 'A + e2 [g] / a = A'],
    'P': ['*X + e1 / a = Y', 'Y + e2 [g] / a = X', '*U + e1 [g] / a = V', 'V + e2 / a = U', 'V + e4 / a = U']},
   defer={'A': 'e4', 'X': 'e2', 'U': 'e4'}, ints={'V': ['e3 [g] / a']}, handler=True, deps=1)

sc('orth_set', 'C08 C17 C22', {
    'R': ['*A + e1 / a = P', 'P + e3 [g] / a = A', 'A + e3 / a = Q', 'Q + e3 / a = A', 'A + e2 = A'],
    'P': ['*X + e1 / a = Y', 'Y + e2 / a = X', '*U + e1 [g] / a = V', 'V + e2 / a = U'],
    'Q': ['*K + e1 / a = L', 'L + e1 = K']},
   entry='P', exit='A P', mc=dict(set=True), handler=True)

sc('orth_int', 'C05 C08 C11 C12', {
    'R': ['*A + e1 / a = P', 'P + e3 [g] / a = A', 'A + e2 / a = A'],
    'P': ['*X + e1 / a = Y', 'Y + e1 [g] = X', '*U + e2 / a = V', 'V + e1 / a = U']},
   ints={'P': ['e4 [g] / a', 'e2 [g] / a'], 'Y': ['e4 / a'], 'V': ['e4 [g] / a', 'e2 / a']},
   entry='A P', exit='P', handler=True, deps=1)

sc('orth_two', 'C01 C02 C07 C08 C22', {
    'R': ['*A + e1 / a = P', 'P + e1 [g] / a = Q', 'Q + e1 [g] / a = P', 'P + e2 / a = Q', 'Q + e2 / a = A', 'Q [g] / a = S',
          'S [g] / a = A', 'S + e1 / a = A'],
    'P': ['*X + e1 / a = Y', '*U + e1 [g] / a = V', '*K + e2 [g] / a = L'],
    'Q': ['*X + e1 / a = U', '*Y + e2 [g] / a = V'],
    'S': ['*X + e1 / a = Y', '*K + e2 / a = L']},
   entry='P Q', exit='P Q', handler=True)

# every feature occurs only in the table of a composite (or of one inside it)
sc('nested_only', 'C05 C06 C09 C10 C19 C22', {
    'R': ['*A + e1 / a = P', 'P + e5 / a = A'],
    'P': ['*X + e1 / a = Q', 'X + e2 / a = hist(Q)', 'Q + e2 / a = X', 'X + e3 / a = Y', 'Y [g] / a = X', 'Y + e3 = Y', 'X + e4 = X'],
    'Q': ['*U + e1 / a = V', 'V + e1 [g] / a = W', 'W [g] / a = U', 'W + e3 = V', 'V + e4 / a = V']},
   ints={'V': ['e3 / a'], 'Q': ['e5 [g] / a']}, defer={'U': 'e4', 'Y': 'e4'},
   entry='X Q U', exit='P Q V', handler=True)

sc('nested_hist', 'C09 C19 C22', {
    'R': ['*A + e1 / a = P', 'P + e4 / a = A'],
    'P': ['*X + e1 / a = hist(Q)', 'Q + e3 [g] / a = X', 'X + e2 / a = Q', 'exit(Q,V) + e2 / a = Y', 'Y + e1 / a = X'],
    'Q': ['*U + e1 / a = V', 'V + e1 / a = W', 'W + e1 = U']},
   entry='X Q', exit='P Q')

# ---- history ------------------------------------------------------------------------
sc('hist', 'C09 C02 C14 C17 C19', {
    'R': ['*A + e1 / a = hist(P)', 'A + e2 / a = P', 'P + e3 / a = A', 'exit(P,Y) + e4 / a = A', 'P + e2 [g] / a = hist(P)',
          'A + e4 / a = B', 'B + e1 / a = entry(P,Z)', 'B + e3 = A'],
    'P': ['*X + e1 [g] / a = Y', 'Y + e1 / a = Z', 'Z + e1 [g] / a = X', 'X + e4 = Z']},
   entry='A P X', exit='A P', mc=dict(set=True))

sc('hist_reg', 'C07 C09', {
    'R': ['*A + e1 / a = hist(P)', 'P + e2 / a = A', 'A + e3 / a = P', '*B + e1 [g] / a = hist(Q)', 'Q + e2 [g] / a = B',
          'B + e3 / a = Q'],
    'P': ['*X + e1 [g] / a = Y', 'Y + e3 / a = X'],
    'Q': ['*U + e3 / a = V', 'V + e1 [g] / a = U']},
   exit='A B P Q')

sc('hist_orth', 'C08 C09', {
    'R': ['*A + e1 / a = hist(P)', 'A + e2 / a = P', 'P + e3 [g] / a = A', 'exit(P,V) + e4 / a = A', 'direct(P,Y) + e4 / a = B',
          'B + e1 = hist(P)', 'B + e2 / a = entry(P,Y)'],
    'P': ['*X + e1 / a = Y', 'Y + e1 [g] / a = X', '*U + e2 / a = V', 'V + e2 [g] / a = U']},
   entry='A', exit='A B')

# set() enters all regions anew, whatever the history says
sc('orth_set_hist', 'C08 C09 C17', {
    'R': ['*A + e1 / a = P', 'P + e3 = A', 'A + e4 / a = hist(P)', 'A + e2 = Q', 'Q + e3 / a = A'],
    'P': ['*X + e4 = X', '*U + e1 / a = V', 'V + e2 = U'],
    'Q': ['*K + e4 / a = K', '*M + e2 / a = N']},
   entry='P', mc=dict(set=True))

# completion rows that lead from one orthogonal composite into another, whose regions have completion rows
sc('orth_anon2', 'C05 C08 C22', {
    'R': ['*A + e1 / a = P', 'P [g] / a = Q', 'Q + e3 / a = A', 'Q + e2 / a = P'],
    'P': ['*X + e2 / a = Y', '*U + e2 [g] / a = V'],
    'Q': ['*K [g] / a = L', 'L + e2 = K', '*M [g] / a = N', 'N + e1 / a = M']},
   entry='Q', exit='P')

sc('nest_throw', 'C23 C24', {
    'R': ['*A + e1 [g] / a = B', 'A + e2 / a = C', 'B + e2 / a = A', 'C + e1 / a = A', 'B [g] / a = C', 'C + e3 / a = C']},
   entry='B C', exit='A', handler=True, mc=dict(nest=['e1', 'e2', 'e3'], throw=True))

# ---- exceptions, nesting --------------------------------------------------------------
sc('throw_flat', 'C23', {
    'R': ['*A + e1 [g] / a = B', 'A + e1 / a = C', 'B + e2 / aa = A', 'B [g] / a = C', 'C + e1 / a = A', 'C + e2 [g] / a = C']},
   ints={'B': ['e3 [g] / a'], 'C': ['e3 / a']},
   entry='A B C', exit='A B C', handler=True, deps=1, mc=dict(throw=True))

sc('throw_defer', 'C23 C10', {
    'R': ['*A + e1 / a = B', 'B + e2 [g] / a = B', 'B + e1 / a = A', 'A + e3 / a = A', 'B + e3 / a = A']},
   defer={'A': 'e2'}, entry='B', exit='A', handler=True, mc=dict(throw=True, q=2))

sc('throw_reg', 'C23 C07', {
    'R': ['*A + e1 [g] / a = B', 'B + e1 / a = A', '*X + e1 / a = Y', 'Y + e1 [g] / a = X', 'B + e2 / a = P', 'P + e2 / a = A'],
    'P': ['*U + e1 / a = V', 'V + e2 [g] / a = U']},
   entry='P U Y', exit='A X', mc=dict(throw=True))

sc('throw_orth', 'C23 C08 C09', {
    'R': ['*A + e1 / a = P', 'A + e2 / a = hist(P)', 'P + e3 [g] / a = A'],
    'P': ['*X + e1 / a = Y', 'Y + e2 / a = X', '*U + e1 [g] / a = V', 'V + e2 [g] / a = U']},
   entry='P X', exit='A P', handler=True, mc=dict(throw=True))

sc('nest_flat', 'C24', {
    'R': ['*A + e1 / a = B', 'A + e2 [g] / a = C', 'B + e2 / a = C', 'B [g] / a = C', 'C + e1 / a = A', 'C + e2 [g] / a = C']},
   ints={'B': ['e3 [g] / a'], 'C': ['e3 / a']},
   entry='A B C', exit='A B', handler=True, deps=1, mc=dict(nest=['e1', 'e2', 'e3'], nests=2))

sc('nest_defer', 'C24 C10', {
    'R': ['*A + e1 / a = B', 'B + e2 [g] / a = B', 'B + e1 / a = A', 'A + e3 / a = A', 'B + e3 / a = A']},
   defer={'A': 'e2'}, entry='B', exit='A', handler=True, mc=dict(nest=['e1', 'e2', 'e3'], q=2))

sc('nest_reg', 'C24 C07', {
    'R': ['*A + e1 / a = B', 'B + e1 [g] / a = A', '*X + e1 / a = Y', 'Y + e1 [g] / a = X', 'Y + e2 / a = X', 'B + e2 / a = B']},
   entry='Y', exit='A', mc=dict(nest=['e1', 'e2']))

sc('nest_orth', 'C24 C08', {
    'R': ['*A + e1 / a = P', 'P + e2 / a = A', 'P + e3 [g] / a = Q', 'Q + e3 / a = P'],
    'P': ['*X + e1 / a = Y', 'Y + e1 / a = X', '*U + e1 / a = V', 'V + e3 / a = U'],
    'Q': ['*Y + e1 / a = X', '*V + e3 [g] / a = U']},
   entry='P', exit='X', mc=dict(nest=['e1', 'e2', 'e3']))

sc('nest_hier', 'C24 C22', {
    'R': ['*A + e1 / a = P', 'P + e2 [g] / a = A', 'exit(P,Y) + e3 / a = A', 'A + e2 / a = hist(P)'],
    'P': ['*X + e1 / a = Y', 'Y + e1 [g] / a = X']},
   entry='P X', exit='A P Y', mc=dict(nest=['e1', 'e2', 'e3']))

# ---- dependencies, factories, chains ------------------------------------------------
sc('deps3', 'C15 C12', {
    'R': ['*A + e1 [g] / a = P', 'P + e2 / a = A', 'A + e2 = A'],
    'P': ['*X + e1 / a = Y', 'Y [g] / a = Z', 'Z + e1 [g] / aa = X', 'Y + e3 / a = X']},
   ints={'P': ['e4 [g] / a'], 'Y': ['e4 / a']}, defer={'X': 'e3'},
   entry='P X Y', exit='A X Y', handler=True, deps=3, mc=dict(dep=True))

sc('deps_reg', 'C15 C07', {
    'R': ['*A + e1 [g] / a = B', 'B + e1 / a = A', '*X + e1 [g] / a = Y', 'Y + e1 / a = X']},
   entry='B Y', exit='A Y', handler=True, deps=2, mc=dict(dep=True))

sc('deps4', 'C15', {
    'R': ['*A + e1 [g] / a = B', 'B + e1 / aa = A', 'B + e2 [g] / a = B', 'A [g] / a = B']},
   ints={'B': ['e3 [g] / a']}, entry='B', exit='A', handler=True, deps=4, mc=dict(dep=True))

sc('custom1', 'C20', {
    'R': ['*A + e1 / C = N', 'N + e2 / a = A', 'A + e3 / R = N', 'N + e1 / C = N', 'N + e3 / R = N', 'A + e2 / a = A']},
   tag='custom', custom='N', entry='A', exit='A', handler=True, mc=dict(throw=True))

sc('custom2', 'C20 C23', {
    'R': ['*A + e1 / C = N', 'A + e2 / C = K', 'N + e2 / a = A', 'K + e2 [g] / a = A', 'N + e3 / C = K', 'K + e3 / C = N',
          'K + e4 / R = N', 'N + e4 [g] / R = K', 'A + e4 / R = K', 'A + e3 [g] / C = K', 'N + e1 / a = N', 'K + e1 / C = K']},
   tag='custom', custom='N K', entry='A', exit='A', mc=dict(throw=True))

sc('custom_hier', 'C20 C22', {
    'R': ['*A + e1 / a = P', 'P + e2 / a = A'],
    'P': ['*X + e1 / C = N', 'N + e3 / R = N', 'N + e4 / a = X', 'X + e4 / R = N', 'N + e1 [g] / C = N']},
   tag='custom', custom='N', entry='A P X', exit='A X', mc=dict(throw=True))

# states that replace their own object
sc('custom_self', 'C20 C13 C23', {
    'R': ['*A + e1 / C = N', 'A + e2 / CR = N', 'N + e1 / C = N', 'N + e2 [g] / CR = N', 'N + e3 / R = N', 'N + e4 / RC = N',
          'N + e4 [g] / CC = N', 'N + e5 / a = A', 'N + e5 [g] / RR = N']},
   tag='custom', custom='N', entry='A N', exit='A N', handler=True, mc=dict(throw=True))

sc('chain', 'C21 C18 C23', {
    'R': ['*A + e1 / aa = B', 'B + e1 [g] / aaa = A', 'B + e2 / aa = B', 'B [g] / aa = C', 'C + e1 / aaaa = A', 'A + e2 / a = A']},
   ints={'B': ['e3 [g] / aa'], 'C': ['e2 / aaa']},
   tag='chain', entry='A B C', exit='A B C', deps=2, mc=dict(throw=True))

sc('chain_hier', 'C21', {
    'R': ['*A + e1 / aaa = P', 'P + e2 / aa = A', 'A + e2 / aa = entry(P,Y)', 'exit(P,Y) + e3 / aaa = A', 'A + e3 / aa = hist(P)'],
    'P': ['*X + e1 [g] / aa = Y', 'Y + e1 / aaaaa = X']},
   tag='chain', entry='P X Y', exit='A P Y', deps=1)

sc('chain_long', 'C21', {
    'R': ['*A + e1 / aaaaaaaaaaaa = B', 'B + e1 [g] / aaaaaaa = A', 'B + e2 / aaaaaa = B', 'A + e2 / a = A']},
   ints={'B': ['e3 [g] / aaaaaaaa']}, tag='chain', entry='B', exit='A', deps=1, mc=dict(throw=True))

# ---- transition logging ---------------------------------------------------------------
sc('log', 'C26', {
    'R': ['*A + e1 / L = B', 'B + e1 [g] / aL = P', 'B + e2 / La = A', 'B [g] / L = C', 'C + e1 / aLa = A', 'A + e2 / L = A',
          'C + e2 / LL = hist(P)', 'P + e2 / L = A', 'exit(P,Y) + e3 / L = B', 'A + e3 / L = entry(P,Y)', 'A + e4 [g] / L = C'],
    'P': ['*X + e1 [g] / L = Y', 'Y + e1 / aL = X', 'X + e4 / L = X']},
   ints={'B': ['e3 [g] / L'], 'P': ['e5 / L'], 'C': ['e3 / aL', 'e4 / L']},
   entry='A P X', exit='A B P', deps=1)

sc('log_reg', 'C26', {
    'R': ['*A + e1 / L = B', 'B + e1 [g] / La = A', '*X + e1 / aL = Y', 'Y + e1 [g] / L = X', 'Y + e2 / L = X', 'B [g] / L = A', 'X [g] / L = Y']},
   defer={'X': 'e2'}, entry='B Y', exit='A Y')

# ---- large machines -------------------------------------------------------------------
# many candidates in one state, many states, many regions, more than 256 combinations of
# parent and state
sc('many_rows', 'C01 C03 C12', {
    'R': ['*A + e1 [g] / a = B', 'A + e1 [g] / a = C', 'A + e1 [g] = D', 'A + e1 [g] / a = A', 'A + e1 [g] / a = B', 'A + e1 [g] / a = E',
          'A + e1 [g] / a = C', 'A + e1 [g] / a = D', 'A + e1 [g] = B', 'A + e1 [g] / a = E', 'B + e1 / a = A', 'C + e1 / a = A',
          'D + e1 = A', 'E + e1 / a = A', 'E + e2 = E']}, handler=True)

sc('many_regions', 'C07 C11 C17', {
    'R': ['*A + e1 / a = B', '*C + e1 [g] / a = D', '*E + e2 / a = F', '*G + e1 [g] / a = H', '*I + e2 / a = K',
          'B + e2 / a = A', 'D + e2 / a = C', 'F + e1 [g] / a = E', 'H + e1 / a = G', 'K + e1 / a = I']},
   entry='B D F H K', mc=dict(set=True), explore=False)

sc('many_regions10', 'C07 C11 C12', {
    'R': [x for k in range(10) for x in ('*A%d + e%d [g] / a = B%d' % (k, 1 + k % 3, k), 'B%d + e%d / a = A%d' % (k, 1 + (k + 1) % 3, k))]},
   entry='B0 B7 B9', exit='A3 A8', handler=True, explore=False)

# composites five levels deep
sc('deep5', 'C02 C05 C09 C17 C22', {
    'R': ['*A + e1 / a = P', 'P + e2 [g] / a = A', 'A + e2 = entry(S,S2)', 'A + e3 = hist(T)', 'direct(T,T2) + e4 / a = A',
          'A + e4 / a = hist(P)'],
    'P': ['*P1 + e1 / a = Q', 'Q + e3 [g] / a = P1', 'P1 + e3 = P2', 'P2 + e1 / a = hist(Q)'],
    'Q': ['*Q1 + e1 / a = S', 'S + e3 [g] / a = Q2', 'Q2 + e1 = Q1', 'Q1 + e3 / a = hist(S)'],
    'S': ['*S1 + e1 / a = T', 'S1 + e3 = S2', 'T + e3 [g] / a = S2', 'S2 + e1 / a = S1', 'S2 + e4 = entry(T,T2)'],
    'T': ['*T1 + e1 / a = T2', 'T2 + e1 [g] / a = T1', 'T2 + e3 = T1']},
   ints={'T': ['e5 / a'], 'S': ['e5 [g] / a'], 'T2': ['e5 [g] / a'], 'P': ['e5', 'e4 [g] / a']},
   entry='A P Q S T T1', exit='P1 Q S T T2', handler=True)

sc('many_regions_orth', 'C08', {
    'R': ['*A + e1 / a = P', 'P + e2 [g] / a = A', 'A + e2 / a = hist(P)'],
    'P': ['*X + e1 / a = Y', '*U + e1 [g] / a = V', '*B + e1 / a = C', '*D + e1 [g] / a = E', '*F + e1 / a = G',
          'Y + e1 / a = X', 'V + e1 = U', 'G + e3 / a = F', 'E + e3 / a = D']}, explore=False)

sc('big', 'C02 C22', {
    'R': ['*A + e1 / a = P', 'P + e2 / a = Q', 'Q + e2 / a = S', 'S + e2 / a = T', 'T + e2 / a = U', 'U + e2 / a = V', 'V + e2 / a = W',
          'W + e2 / a = Z', 'Z + e2 / a = A', 'A + e3 = Z', 'A + e2 / a = V', 'A + e4 = entry(T,T3)', 'A + e5 / a = direct(W,W2)',
          'Z + e5 / a = hist(Q)'],
    **{c: ['*%s1 + e1 / a = %s2' % (c, c), '%s2 + e1 / a = %s3' % (c, c), '%s3 + e1 / a = %s1' % (c, c), '%s3 + e3 / a = %s2' % (c, c)]
       for c in 'PQSTUVWZ'}},
   entry='A P3 Z', exit='A Q', explore=False)

# ---- every combination of event, guard and action, of source and of target ---------------
sc('combo_ev', 'C18', {
    'R': ['*A + e1 = B', '*A + e2 [g] = B', '*A + e3 / a = B', '*A + e4 [g] / a = B',
          'B + e1 = A', 'B + e2 [g] = A', 'B + e3 / a = A', 'B + e4 [g] / a = A']}, entry='A B', exit='A B', deps=1)

sc('combo_int', 'C18', {
    'R': ['*A + e5 = B', 'B + e5 = A']},
   ints={'R': ['e1', 'e2 [g]', 'e3 / a', 'e4 [g] / a'], 'B': ['e4', 'e3 [g]', 'e2 / a', 'e1 [g] / a']},
   entry='A B', exit='A B', handler=True, deps=1)

sc('combo_none', 'C18', {
    'R': ['*A [g] = B', '*A + e1 [g] / a = A', 'B / a = C', 'B + e1 / a = A', 'C [g] / a = D', 'C + e1 / a = A',
          'D = E', 'E + e1 / a = A', 'E + e2 / a = B', 'E + e3 / a = C', 'E + e4 / a = D']}, entry='C E', exit='B D', deps=1)

sc('combo_none1', 'C18', {
    'R': ['*A [g] / a = B', 'B + e1 / a = A', 'B + e2 / a = B']}, entry='A B', exit='A B')

sc('combo_none2', 'C18', {
    'R': ['*A / a = B', 'B + e1 / a = C', 'C + e2 / a = A', 'C + e1 / a = B']}, entry='A B', exit='A B')

sc('combo_none3', 'C18', {
    'R': ['*A = B', 'B + e1 / a = C', 'C + e2 / a = A', 'C + e1 / a = B']}, entry='A B', exit='A B')

sc('combo_src', 'C18', {
    'R': ['*A + e1 / a = P', 'exit(P,X) + e1 = A', 'exit(P,X) + e2 [g] = A', 'exit(P,X) + e3 / a = A', 'exit(P,X) + e4 [g] / a = A',
          'direct(P,Y) + e1 = A', 'direct(P,Y) + e2 [g] = A', 'direct(P,Y) + e3 / a = A', 'direct(P,Y) + e4 [g] / a = A',
          'P + e6 = A', 'P + e7 [g] = A', 'P + e8 / a = A', 'P + e9 [g] / a = A'],
    'P': ['*X + e5 = Y', 'Y + e5 / a = X']}, entry='A P', exit='A P')

sc('combo_tgt', 'C18', {
    'R': ['*A + e1 = entry(P,Y)', '*A + e2 [g] = entry(P,Y)', '*A + e3 / a = entry(P,Y)', '*A + e4 [g] / a = entry(P,Y)',
          'B + e1 = direct(P,Y)', 'B + e2 [g] = direct(P,Y)', 'B + e3 / a = direct(P,Y)', 'B + e4 [g] / a = direct(P,Y)',
          'C + e1 = hist(P)', 'C + e2 [g] = hist(P)', 'C + e3 / a = hist(P)', 'C + e4 [g] / a = hist(P)',
          'A + e5 / a = B', 'B + e5 / a = C', 'C + e5 / a = P', 'P + e6 / a = A', 'P + e7 / a = C'],
    'P': ['*X + e5 = Y', 'Y + e5 / a = X']}, entry='A P', exit='A P')

for _m in ALL:
    if _m['name'] in ('flat_prio', 'flat_int', 'hier', 'hier_pseudo', 'reg3', 'hist'):
        _m['props'].append('C25')

BY_NAME = {m['name']: m for m in ALL}
assert len(BY_NAME) == len(ALL)
