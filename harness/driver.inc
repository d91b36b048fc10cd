// Script interpreter. One command per line:
//   N i set                    construct instance i with dependency set
//   P i ev id lv val tk tn tok n (nk nn nev nid catch)*
//                  lv / 2: how often the call is repeated if nothing but guards happens; what is
//                  reported is the first call that differs from the one before
//   S i form r p s             set state
//   D i set                    set_dependency
//   X i                        destroy instance i
//   M i form set               move instance i into a new object, or assign it to one
//   T n                        start of trace n
//   O k n                      the next command is carried out inside callback (k, n) of the
//                              P command after it, or at the end of that command
static std::map<int, std::unique_ptr<Sm>> inst;
static std::map<int, std::map<std::string, const void*>> addrs;

static bool fireEvent(Sm& sm, const std::string& ev, int id, bool lv, int& touch)
{
    auto& c = H::ctx();
    const int oldId = c.evId;
    const void* oldAddr = c.evAddr;
    struct Restore {
        int id;
        const void* addr;
        ~Restore() { H::ctx().evId = id; H::ctx().evAddr = addr; }
    } restore { oldId, oldAddr };
    return fire(sm, ev, id, lv, touch);
}

static void emitRecord(int i, const char* op, const std::string& ev, int id, bool ret, bool thrown, int touch)
{
    H::logBuf().finish();
    std::string cb = H::ctx().out;
    H::ctx().out.clear();
    std::string q = query(*inst[i]);
    std::printf("{\"i\":%d,\"op\":\"%s\",\"ev\":\"%s\",\"id\":%d,\"ret\":%s,\"thrown\":%s,\"touch\":%d,\"out\":[%s],%s}\n", i,
        op, ev.c_str(), id, ret ? "true" : "false", thrown ? "true" : "false", touch, cb.c_str(), q.c_str());
    std::fflush(stdout);
}

static std::string held, heldK, heldN;

static bool onlyGuards(const std::string& out)
{
    const std::string key = "\"k\":\"";
    for (std::size_t i = out.find(key); i != std::string::npos; i = out.find(key, i + 1))
        if (out.compare(i + key.size(), 5, "guard") != 0) return false;
    return true;
}

static void execute(const std::string& line)
{
    auto& c = H::ctx();
    const itimerval limit { { 0, 0 }, { 8, 0 } };   // seconds of CPU time per call
    setitimer(ITIMER_PROF, &limit, nullptr);
    std::istringstream in(line);
    std::string op;
    in >> op;
    if (op == "T") {
        int n;
        in >> n;
        inst.clear();
        addrs.clear();
        std::printf("{\"trace\":%d}\n", n);
    } else if (op == "N") {
        int i, set;
        in >> i >> set;
        inst.erase(i);
        addrs[i].clear();
        inst[i] = makeSm(set);
        emitRecord(i, "N", "", 0, false, false, 0);
    } else if (op == "X") {
        int i;
        in >> i;
        inst.erase(i);
        const bool last = inst.empty();
        std::printf("{\"i\":%d,\"op\":\"X\",\"ls\":%d,\"le\":%d}\n", i, last ? H::LiveState::n : 0,
            last ? H::LiveEvent::n : 0);
        std::fflush(stdout);
    } else if (op == "M") {
        int i;
        int form, set;
        in >> i >> form >> set;
        addrs[i].clear();
        if (form == 0) {
            inst[i] = std::make_unique<Sm>(std::move(*inst[i]));
        } else if (form == 2) { // out and back again
            Sm t(std::move(*inst[i]));
            moveTo(*inst[i], t);
        } else { // into a machine with a life of its own
            auto n = makeSm(set);
            moveTo(*n, *inst[i]);
            inst[i] = std::move(n);
        }
        emitRecord(i, "M", "", 0, false, false, 0);
    } else if (op == "D") {
        int i, set;
        in >> i >> set;
        setDeps(*inst[i], set);
        emitRecord(i, "D", "", 0, false, false, 0);
    } else if (op == "S") {
        int i, form, r;
        std::string p, s;
        in >> i >> form >> r >> p >> s;
        bool ok = setState(*inst[i], form, r, p, s);
        emitRecord(i, "S", "", 0, ok, false, 0);
    } else if (op == "P") {
        int i, id, lv, nv, nn;
        std::string ev;
        in >> i >> ev >> id >> lv >> nv;
        c.val.assign(nv, 0);
        for (int& v : c.val) in >> v;
        in >> c.thrK >> c.thrN >> c.token >> nn;
        if (c.thrK == "-") c.thrK.clear();
        if (c.thrN == "-") c.thrN.clear();
        c.nest.clear();
        const int token = c.token;
        while (nn-- > 0) {
            int nid, ca;
            std::string nev;
            H::Ctx::Nest n;
            in >> n.k >> n.n >> nev >> nid >> ca;
            if (n.n == "-") n.n.clear();
            n.call = [i, nev, nid, ca, token] {
                int t = 0;
                bool r = false;
                const char* how = "";
                try {
                    r = fireEvent(*inst[i], nev, nid, true, t);
                } catch (...) {
                    if (!ca) throw;
                    how = H::caught() == token ? "thrown" : "other";
                }
                H::rec("ret", how, nev.c_str(), nid, t, "", 0, "", 0, 0, r);
            };
            c.nest.push_back(n);
        }
        c.foreign = nullptr;
        if (!held.empty()) {
            c.forK = heldK;
            c.forN = heldN == "-" ? "" : heldN;
            c.foreign = [cmd = std::exchange(held, std::string())] { execute(cmd); };
        }
        c.addr = &addrs[i];
        c.at = [i] { return where(*inst[i]); };
        int touch = 0;
        bool ret = false, thrown = false;
        try {
            ret = fireEvent(*inst[i], ev, id, lv & 1, touch);
        } catch (...) {
            thrown = H::caught() == token;
        }
        if (c.foreign) H::runForeign();
        c.nest.clear();
        c.thrK.clear();
        const std::string first = c.out;
        const std::string before = first.size() < 2000 ? where(*inst[i]) : "";
        int repeat = ret || thrown || before.empty() || !onlyGuards(first) ? 0 : lv / 2;
        if (repeat > 0) {
            const itimerval more { { 0, 0 }, { 60, 0 } };
            setitimer(ITIMER_PROF, &more, nullptr);
            auto at = std::exchange(c.at, nullptr);
            std::string quiet;
            bool same = true;
            for (int n = 0; same && n < repeat; ++n) {
                c.out.clear();
                ret = fireEvent(*inst[i], ev, id, lv & 1, touch);
                if (n == 0) quiet = c.out;
                same = !ret && c.out == quiet && onlyGuards(c.out) && (n % 1000 || where(*inst[i]) == before);
            }
            if (same) c.out = first;
            c.at = at;
        }
        emitRecord(i, "P", ev, id, ret, thrown, touch);
    }
}

int main()
{
    initDeps();
    std::cout.rdbuf(&H::logBuf());
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line[0] == 'O') {
            std::istringstream in(line.substr(1));
            in >> heldK >> heldN;
            std::getline(std::cin, held);
        } else {
            execute(line);
        }
    }
    std::printf("{\"end\":true}\n");
    return 0;
}
