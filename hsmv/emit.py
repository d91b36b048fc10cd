"""C++ source of the test driver for one machine (public API of the library only)."""
from .machine import children, inits, pairs, maxr


def emit_ref(k, p, s, ini=False, prefix=''):
    if k == 'st':
        return ('* ' if ini else '') + 'hsm::state<S_%s>' % s
    if k == 'hist':
        return 'hsm::history<S_%s>' % p
    return 'hsm::%s<S_%s, S_%s>' % (k, p, s)


def emit_action(m, row, tgt=None):
    parts = []
    for a in row['a']:
        if a['k'] == 'act':
            form = 'H::ActV{%s, %d}' if m.get('values') else 'H::Act<%s, %d>{}'
            parts.append(form % (a['n'], row['id']))
        elif a['k'] == 'log':
            parts.append('hsm::log')
        elif a['k'] == 'create':
            parts.append('hsm::create_state(H::Factory<%s, S_%s>{})' % (a['n'], tgt))
        else:
            parts.append('hsm::reuse_state(H::Reuse<%s>{})' % a['n'])
    if len(parts) == 1:
        return parts[0]
    return 'hsm::%s(%s)' % ('chain_actions' if row['id'] % 2 else 'chain', ', '.join(parts))


def emit_row(m, row, notation, mark):
    """notation: postfix | prefix | tuple; mark: how initial states are marked (star | initial)"""
    src = emit_ref(row['sk'], row['sp'], row['s'])
    if row['ini']:
        src = '* ' + src if mark == 'star' else 'hsm::initial<S_%s>' % row['s']
    tgt = emit_ref(row['tk'], row['tp'], row['t'])
    g = ('H::GuardV{%d}' if m.get('values') else 'H::Guard<%d>{}') % row['id'] if row['g'] else ''
    a = emit_action(m, row, row['t']) if row['a'] else ''
    ev = '' if row['ev'] == 'none' else 'hsm::event<E_%s>' % row['ev']
    if notation == 'prefix' and row['ev'] == 'none' and (g or a or row['ini'] or row['sk'] != 'st'):
        # the prefix notation has no guards and actions on event-less rows, and no initial or
        # pseudo states as their source
        notation = 'postfix'
    if notation == 'tuple':
        return 'hsm::transition(%s, %s, %s, %s, %s)' % (
            src, ev or 'hsm::none{}', g or 'hsm::noGuard{}', a or 'hsm::noAction{}', tgt)
    lhs = src
    if row['ini'] and mark == 'star' and not ev and (g or a):
        lhs = '(' + src + ')'
    if ev:
        lhs += ' + ' + ev
    if g:
        lhs += ' [' + g + ']'
    if a:
        lhs += ' / ' + a
    if notation == 'prefix':
        return '%s <= %s' % (tgt, lhs)
    return '%s = %s' % (lhs, tgt)


def emit_int(m, r, notation):
    g = ('H::GuardV{%d}' if m.get('values') else 'H::Guard<%d>{}') % r['id'] if r['g'] else ''
    a = emit_action(m, r) if r['a'] else ''
    if notation == 'tuple':
        return 'hsm::internal_transition(hsm::event<E_%s>, %s, %s)' % (
            r['ev'], g or 'hsm::noGuard{}', a or 'hsm::noAction{}')
    lhs = 'hsm::event<E_%s>' % r['ev']
    if g:
        lhs += ' [' + g + ']'
    if a:
        lhs += ' / ' + a
    return '+ (' + lhs + ')' if (g or a) else '+ ' + lhs


def dep_type(m, k):
    return 'H::DepS' if m.get('samedep') else 'H::Dep<%d>' % k


def dep_pool(m, k):
    return ('H::depPoolS<%d>()' if m.get('samedep') else 'H::depPool<%d>()') % k


def emit_types(w, m, notation='postfix', mark='star', header='hsm/hsm.h', extra=''):
    w('#include <%s>' % header)
    w('#include "harness.h"')
    w('namespace {')
    if extra:
        w(extra)
    for s in m['st']:
        w('struct S_%s;' % s)
    for e in m['evs']:
        w('struct E_%s { static constexpr const char* nm = "%s"; int id = 0; int touch = 0; std::string pay; H::LiveEvent live; };' % (e, e))
    done = []

    def body(s):
        st = m['st'][s]
        w('struct S_%s {' % s)
        w('  static constexpr const char* nm = "%s";' % s)
        if s not in m['comps']:     # the library requires literal types for composites
            w('  H::LiveState live;')
        if st['cu']:
            w('  int d; explicit S_%s(int v) : d(v) {}' % s)
        else:
            w('  int d = 0;')
        if s in m['comps']:
            c = m['comps'][s]
            w('  static constexpr auto make_transition_table() { return hsm::transition_table(')
            w(',\n'.join('    ' + emit_row(m, r, notation, mark) for r in c['rows']))
            w('  ); }')
            ints = c['ints']
        else:
            ints = st['ints']
        if ints:
            w('  static constexpr auto make_internal_transition_table() { return hsm::transition_table(')
            w(',\n'.join('    ' + emit_int(m, r, notation) for r in ints))
            w('  ); }')
        if st['en']:
            w('  static constexpr auto on_entry() { return H::Entry<S_%s>{}; }' % s)
        if st['ex']:
            w('  static constexpr auto on_exit() { return H::Exit<S_%s>{}; }' % s)
        if st['df']:
            w('  static constexpr auto defer_events() { return hsm::events<%s>; }'
              % ', '.join('E_' + e for e in st['df']))
        if s == m['root'] and m['handler']:
            w('  static constexpr auto on_unexpected_event() { return H::Unexpected{}; }')
        w('};')
    # atomic states first, then composites innermost first
    def order(s):
        if s in done:
            return
        if s in m['comps']:
            for r in m['comps'][s]['rows']:
                for x in (r['sp'], r['s'], r['tp'], r['t']):
                    if x and x != s:
                        order(x)
        if s not in done:
            done.append(s)
    for s in m['st']:
        if s not in m['comps']:
            order(s)
    order(m['root'])
    for s in m['st']:
        order(s)
    for s in done:
        body(s)
    w('}')
    deps = ''.join(', ' + dep_type(m, k) for k in range(m['deps']))
    w('using Sm = hsm::sm<S_%s%s>;' % (m['root'], deps))


def emit_program(m, use):
    """a program that makes one use of the machine (C25)"""
    o = []
    w = o.append
    emit_types(w, m, extra='struct S_Zz { static constexpr const char* nm = "Zz"; int d = 0; };\n'
                           'struct E_zz { static constexpr const char* nm = "zz"; int id = 0; int touch = 0; std::string pay; };')
    nd = m['deps']
    w('int main() {')
    for k in range(nd):
        w('  %s d%d;' % (dep_type(m, k), k))
    w('  Sm sm%s;' % (('(' + ', '.join('d%d' % k for k in range(nd)) + ')') if nd else ''))
    k = use['k']
    if k == 'process':
        w('  sm.process_event(E_%s{});' % use['ev'])
    elif k == 'set1':
        w('  sm.set(hsm::state<S_%s>);' % use['s'])
    elif k == 'set2':
        w('  sm.set(hsm::state<S_%s>, hsm::state<S_%s>);' % (use['p'], use['s']))
    elif k == 'set3':
        w('  sm.set(0, hsm::state<S_%s>, hsm::state<S_%s>);' % (use['p'], use['s']))
    w('}')
    return '\n'.join(o) + '\n'


def emit(m, notation='postfix', mark='star', header='hsm/hsm.h', use_set=False):
    o = []
    w = o.append
    emit_types(w, m, notation, mark, header)
    nd = m['deps']
    # make
    # set numbers: one digit for the dependencies with an even index, one for the others
    args = ', '.join(dep_pool(m, k) + ('[set / H::kDepSets]' if k % 2 else '[set % H::kDepSets]') for k in range(nd))
    w('static std::unique_ptr<Sm> makeSm(int set) { (void)set; return std::unique_ptr<Sm>(new Sm(%s)); }' % args)
    w('static void setDeps(Sm& sm, int set) { (void)sm; (void)set; %s }'
      % ('sm.set_dependency(%s);' % args if nd else ''))
    w('static void initDeps() { for (int i = 0; i < H::kDepSets; ++i) { (void)i; %s } }'
      % ' '.join('%s[i].set = i; %s[i].k = %d;' % (dep_pool(m, k), dep_pool(m, k), k) for k in range(nd)))
    # process
    w('static bool fire(Sm& sm, const std::string& ev, int id, bool lv, int& touch) {')
    for e in m['evs']:
        w('  if (ev == "%s") { E_%s e; e.id = id; e.pay = H::payload(id); H::ctx().evId = id; H::ctx().evAddr = &e; bool r; try { r = lv ? sm.process_event(e) : '
          'sm.process_event(std::move(e)); } catch (...) { touch = e.touch; throw; } '
          'touch = lv && H::evId(e) < 0 ? -1 : e.touch; return r; }' % (e, e))
    w('  std::abort(); }')
    # queries
    prs = pairs(m)
    if len(m['comps']) * len(m['st']) <= 40:
        qp = [(p, s) for p in m['comps'] for s in m['st']]
    else:
        qp = prs
    w('static void moveTo(Sm& to, Sm& from) { %s }' % ('to = std::move(from);'))
    w('static std::string where(Sm& sm) { std::string o; int n = 0; for (char ch : sm.status()) if (ch == \'[\') ++n;')
    w('  for (int r = 0; r < n; ++r) {')
    for n, (p, s) in enumerate(prs):
        w('    %sif (sm.is(r, hsm::state<S_%s>, hsm::state<S_%s>)) o += "%s.%s;";' % ('else ' if n else '', p, s, p, s))
    w('  } return o; }')
    w('static std::string query(Sm& sm) {')
    w('  std::ostringstream o; const std::string st = sm.status(); int n = 0;')
    w('  for (char ch : st) if (ch == \'[\') ++n;')
    w('  o << "\\"nreg\\":" << n << ",\\"status\\":\\""; for (char ch : st) o << (ch >= 32 && ch != \'"\' && ch != \'\\\\\' ? ch : \'?\'); o << "\\",\\"isr\\":[";')
    w('  for (int r = 0; r < n; ++r) { o << (r ? "," : "") << "["; bool first = true; auto put = [&](const char* p, const char* s, bool b) { if (b) { o << (first ? "" : ",") << "[\\"" << p << "\\",\\"" << s << "\\"]"; first = false; } };')
    for p, s in qp:
        w('    put("%s", "%s", sm.is(r, hsm::state<S_%s>, hsm::state<S_%s>));' % (p, s, p, s))
    w('    o << "]"; }')
    w('  bool first = true; auto put2 = [&](const char* p, const char* s, bool b) { if (b) { o << (first ? "" : ",") << "[\\"" << p << "\\",\\"" << s << "\\"]"; first = false; } };')
    w('  auto put1 = [&](const char* p, bool b) { if (b) { o << (first ? "" : ",") << "\\"" << p << "\\""; first = false; } };')
    w('  (void)put1; (void)put2;')
    w('  o << "],\\"isp\\":["; first = true;')
    if not m.get('fewq'):
        for p, s in qp:
            w('  put2("%s", "%s", sm.is(hsm::state<S_%s>, hsm::state<S_%s>));' % (p, s, p, s))
    w('  o << "],\\"iss\\":["; first = true;')
    if not m.get('fewq'):
        for s in m['st']:
            w('  put1("%s", sm.is(hsm::state<S_%s>));' % (s, s))
    w('  o << "],\\"pis\\":["; first = true;')
    for p in (m['st'] if len(m['st']) <= 10 else m['comps']):
        w('  put1("%s", sm.parent_is(hsm::state<S_%s>));' % (p, p))
    w('  o << "]";')
    p0, s0 = prs[0]
    w('  bool oor = false; try { (void)sm.is(%d, hsm::state<S_%s>, hsm::state<S_%s>); } catch (const std::out_of_range&) { oor = true; }'
      % (maxr(m), p0, s0))
    w('  o << ",\\"oor\\":" << (oor ? "true" : "false"); return o.str(); }')
    # set
    w('static bool setState(Sm& sm, int form, int r, const std::string& p, const std::string& s) {')
    w('  (void)sm; (void)form; (void)r; try {')
    if use_set:
        for p, s in prs:
            w('  if (p == "%s" && s == "%s") {' % (p, s))
            if p == m['root']:
                w('    if (form == 1) { sm.set(hsm::state<S_%s>); return true; }' % s)
            w('    if (form == 2) { sm.set(hsm::state<S_%s>, hsm::state<S_%s>); return true; }' % (p, s))
            w('    sm.set(r, hsm::state<S_%s>, hsm::state<S_%s>); return true; }' % (p, s))
    w('  } catch (const std::out_of_range&) { return false; } std::abort(); }')
    w('#include "driver.inc"')
    return '\n'.join(o) + '\n'
