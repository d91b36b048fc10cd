// Test driver for one generated state machine. It uses the public API only and
// writes one JSON line per API call: the callbacks that ran (with the objects
// they saw), the result, and every answer of is()/parent_is()/status().
#pragma once
#include <array>
#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <utility>
#include <vector>

namespace H {

struct CallbackError : std::runtime_error {
    int token;
    CallbackError(int t) : std::runtime_error("callback"), token(t) {}
};
struct CallbackFault { int token; };   // not every exception is a std::exception
// the token of the exception being handled
inline int caught()
{
    try {
        throw;
    } catch (const CallbackError& e) {
        return e.token;
    } catch (const CallbackFault& e) {
        return e.token;
    }
}

constexpr int kDepSets = 4;
template <int K> struct Dep { int set; int k; };
template <int K> Dep<K>* depPool()
{
    static Dep<K> pool[kDepSets];
    return pool;
}
template <int K> int depSetOf(const Dep<K>& d)
{
    for (int i = 0; i < kDepSets; ++i)
        if (&d == &depPool<K>()[i]) return i;
    return -1;
}

// counts the living objects of a kind
template <class Kind> struct Live {
    static int n;
    Live() { ++n; }
    Live(const Live&) { ++n; }
    Live& operator=(const Live&) = default;
    ~Live() { --n; }
};
template <class Kind> int Live<Kind>::n = 0;
using LiveState = Live<struct StateKind>;
using LiveEvent = Live<struct EventKind>;

// dependencies of one type
struct DepS { int set; int k; };
template <int K> DepS* depPoolS()
{
    static DepS pool[kDepSets];
    return pool;
}
inline int depSetOf(const DepS& d)
{
    DepS* pools[] = {depPoolS<0>(), depPoolS<1>(), depPoolS<2>(), depPoolS<3>()};
    for (int i = 0; i < kDepSets; ++i)
        if (&d == &pools[d.k & 3][i]) return i;
    return -1;
}

struct Ctx {
    std::string out;       // JSON array elements of the callbacks of the current call
    // guard outcomes, indexed by row id: the number of times the action of the row runs
    // before the guard becomes false; kAlways: it does not become false
    std::vector<int> val;
    std::string thrK, thrN;
    int token = 0;
    struct Nest { std::string k, n; std::function<void()> call; };
    std::vector<Nest> nest;   // in the order in which they have to happen
    std::function<std::string()> at;   // the configuration of the machine under test
    int evId = 0;                      // the event passed to process_event, and its object
    const void* evAddr = nullptr;
    // the addresses at which the state objects of the machine under test have been seen
    std::map<std::string, const void*>* addr = nullptr;
    // what happens to another machine while this callback runs
    std::string forK, forN;
    std::function<void()> foreign;
};
inline Ctx& ctx() { static Ctx c; return c; }

inline std::string payload(int id) { return "the payload of event number " + std::to_string(id); }
template <class E> const char* evName(const E&) { return E::nm; }
inline const char* evName(const hsm::noneEvent&) { return "none"; }
// an event carries its id twice; the second copy shows whether it has been moved from
// another object than the one given to process_event has the number -2
template <class E> int evId(const E& e)
{
    if (e.pay != payload(e.id)) return -1;
    return e.id == ctx().evId && ctx().evAddr && ctx().evAddr != &e ? -2 : e.id;
}
inline int evId(const hsm::noneEvent&) { return 0; }
template <class E> int evTouch(const E& e) { return e.touch; }
inline int evTouch(const hsm::noneEvent&) { return 0; }
template <class E> void evTouchIt(E& e) { ++e.touch; }
inline void evTouchIt(hsm::noneEvent&) {}
inline void evTouchIt(const hsm::noneEvent&) {}

// handlers are also instantiated for pseudo states, which are never active
template <class S, class = void> struct IsState : std::false_type {};
template <class S> struct IsState<S, decltype((void)S::nm)> : std::true_type {};
template <class S> const char* stName(const S&)
{
    if constexpr (IsState<S>::value) return S::nm;
    else return "?pseudo";
}
template <class S> int stData(const S& s)
{
    if constexpr (IsState<S>::value) {
        // another object than before has the value -7; factories replace objects
        if constexpr (std::is_default_constructible<S>::value)
            if (ctx().addr && ctx().addr->emplace(S::nm, &s).first->second != &s) return -7;
        return s.d;
    } else {
        return (void)s, -9;
    }
}
template <class S> void stBump(S& s)
{
    if constexpr (IsState<S>::value) ++s.d;
    else (void)s;
}
// a target that is passed by its owner (not default constructible)
template <class S> const char* stName(const std::shared_ptr<std::unique_ptr<S>>&) { return S::nm; }
template <class S> int stData(const std::shared_ptr<std::unique_ptr<S>>& s) { return *s ? (*s)->d : -1; }
template <class S> void stBump(std::shared_ptr<std::unique_ptr<S>>& s) { if (*s) ++(*s)->d; }

template <class... D> int depSet(const D&... d)
{
    if constexpr (sizeof...(D) == 0) {
        return 0;
    } else {
        int k = 0;
        int set[2] = {-2, -2};
        auto see = [&](const auto& one) {
            int& digit = set[k & 1];
            const int found = one.k != k ? -1 : depSetOf(one);
            digit = digit == -2 || digit == found ? found : -1;
            ++k;
        };
        (see(d), ...);
        if (set[1] == -2) set[1] = 0;
        return set[0] < 0 || set[1] < 0 ? -1 : set[0] + kDepSets * set[1];
    }
}

inline void rec(const char* k, const std::string& n, const char* ev, int id, int touch,
    const char* src, int sd, const char* tgt, int td, int dep, bool r)
{
    char buf[768];
    const std::string at = std::strcmp(k, "ret") != 0 && ctx().at ? ctx().at() : std::string();
    std::snprintf(buf, sizeof buf,
        "%s{\"at\":\"%s\",\"k\":\"%s\",\"n\":\"%s\",\"ev\":\"%s\",\"id\":%d,\"touch\":%d,\"src\":\"%s\",\"sd\":%d,"
        "\"tgt\":\"%s\",\"td\":%d,\"dep\":%d,\"r\":%s}",
        ctx().out.empty() ? "" : ",", at.c_str(), k, n.c_str(), ev, id, touch, src, sd, tgt, td, dep, r ? "true" : "false");
    ctx().out += buf;
    if (ctx().out.size() > (1u << 22)) std::abort(); // endless run of callbacks
}

// what the library writes to std::cout is recorded line by line, as the names of the states
// and events in it
inline std::string typeNames(const std::string& line)
{
    std::string res;
    auto isId = [](char ch) { return std::isalnum((unsigned char)ch) || ch == '_'; };
    for (std::size_t i = 0; i < line.size();) {
        std::size_t j = i;
        while (j < line.size() && isId(line[j])) ++j;
        if (j == i) {
            ++i;
            continue;
        }
        std::string w = line.substr(i, j - i);
        if (w == "noneEvent") w = "E_none";
        if (w.compare(0, 2, "S_") == 0 || w.compare(0, 2, "E_") == 0)
            res += (res.empty() ? "" : "|") + w.substr(2);
        i = j;
    }
    return res;
}
struct LogBuf : std::streambuf {
    std::string line;
    int overflow(int ch) override
    {
        if (ch == '\n') {
            rec("log", typeNames(line), "", 0, 0, "", 0, "", 0, 0, true);
            line.clear();
        } else if (ch != EOF) {
            line += (char)ch;
        }
        return ch == EOF ? 0 : ch;
    }
    void finish() { if (!line.empty()) overflow('\n'); }
};
inline LogBuf& logBuf() { static LogBuf b; return b; }
inline std::string takeLog() { return std::exchange(logBuf().line, std::string()); }
inline void giveLog(const std::string& line) { logBuf().line = line; }

inline void maybeThrow(const char* k, const std::string& n)
{
    auto& c = ctx();
    if (c.thrK == k && c.thrN == n) {
        c.thrK.clear();
        if (c.token % 2) throw CallbackFault { c.token };
        throw CallbackError(c.token);
    }
}
inline void maybeNest(const char* k, const std::string& n)
{
    auto& c = ctx();
    if (!c.nest.empty() && c.nest.front().k == k && c.nest.front().n == n) {
        auto f = c.nest.front().call;
        c.nest.erase(c.nest.begin());
        f();
    }
}

inline void runForeign()
{
    auto f = std::move(ctx().foreign);
    ctx().foreign = nullptr;
    const std::string log = takeLog();
    Ctx mine = std::move(ctx());
    ctx() = Ctx {};
    f();
    ctx() = std::move(mine);
    giveLog(log);
}
inline void maybeForeign(const char* k, const std::string& n)
{
    auto& c = ctx();
    if (c.foreign && c.forK == k && c.forN == n) runForeign();
}

template <class Ev, class S, class T, class... D>
void effect(const char* k, const std::string& n, Ev& ev, S& src, T& tgt, const D&... d)
{
    rec(k, n, evName(ev), evId(ev), evTouch(ev), stName(src), stData(src), stName(tgt), stData(tgt),
        depSet(d...), true);
    evTouchIt(ev);
    stBump(src);
    stBump(tgt);
    maybeForeign(k, n);
    maybeThrow(k, n);
    maybeNest(k, n);
}

constexpr int kAlways = 1000;
inline bool guardValue(int id) { return id < (int)ctx().val.size() && ctx().val[id] > 0; }
inline void spend(int id)
{
    if (guardValue(id) && ctx().val[id] < kAlways) --ctx().val[id];
}

template <int Id, int Row> struct Act {
    template <class Ev, class S, class T, class... D>
    void operator()(Ev&& ev, S&& s, T&& t, D&&... d) const
    {
        spend(Row);
        effect("act", std::to_string(Id), ev, s, t, d...);
    }
};
template <int Id> struct Guard {
    template <class Ev, class S, class T, class... D>
    bool operator()(Ev&& ev, S&& s, T&& t, D&&... d) const
    {
        const bool r = guardValue(Id);
        rec("guard", std::to_string(Id), evName(ev), evId(ev), evTouch(ev), stName(s), stData(s), stName(t),
            stData(t), depSet(d...), r);
        maybeForeign("guard", std::to_string(Id));
        maybeThrow("guard", std::to_string(Id));
        return r;
    }
};
// the same as values of one type, as with function pointers or functors that carry data
struct ActV {
    int id, row;
    template <class Ev, class S, class T, class... D>
    void operator()(Ev&& ev, S&& s, T&& t, D&&... d) const
    {
        spend(row);
        effect("act", std::to_string(id), ev, s, t, d...);
    }
};
struct GuardV {
    int id;
    template <class Ev, class S, class T, class... D>
    bool operator()(Ev&& ev, S&& s, T&& t, D&&... d) const
    {
        const bool r = guardValue(id);
        rec("guard", std::to_string(id), evName(ev), evId(ev), evTouch(ev), stName(s), stData(s), stName(t),
            stData(t), depSet(d...), r);
        maybeForeign("guard", std::to_string(id));
        maybeThrow("guard", std::to_string(id));
        return r;
    }
};
template <class St> struct Entry {
    template <class Ev, class S, class T, class... D>
    void operator()(Ev&& ev, S&& s, T&& t, D&&... d) const
    {
        effect("entry", St::nm, ev, s, t, d...);
    }
};
template <class St> struct Exit {
    template <class Ev, class S, class T, class... D>
    void operator()(Ev&& ev, S&& s, T&& t, D&&... d) const
    {
        effect("exit", St::nm, ev, s, t, d...);
    }
};
struct Unexpected {
    template <class Ev, class S, class... D> void operator()(Ev&& ev, S&& s, D&&... d) const
    {
        rec("unexp", "", evName(ev), evId(ev), evTouch(ev), stName(s), stData(s), "", 0, depSet(d...), false);
        evTouchIt(ev);
        stBump(s);
        maybeForeign("unexp", "");
        maybeThrow("unexp", "");
        maybeNest("unexp", "");
    }
};
struct Copies { // no identity of objects in this scope
    const void* ev = ctx().evAddr;
    std::map<std::string, const void*>* ad = ctx().addr;
    Copies() { ctx().evAddr = nullptr; ctx().addr = nullptr; }
    ~Copies() { ctx().evAddr = ev; ctx().addr = ad; }
};
// state factory for create_state; the library hands it copies of event and source
template <int Id, class St> struct Factory {
    template <class Ev, class S> std::unique_ptr<St> operator()(Ev&& ev, S&& s) const
    {
        Copies copies;
        rec("act", std::to_string(Id), evName(ev), evId(ev), evTouch(ev), stName(s), stData(s), St::nm, -2, 0, true);
        maybeThrow("act", std::to_string(Id));
        return std::make_unique<St>(1000 + 10 * evId(ev));
    }
};
// action for reuse_state; event and source are copies, the target is the real object
template <int Id> struct Reuse {
    template <class Ev, class S, class T> void operator()(Ev&& ev, S&& s, T&& t) const
    {
        {
            Copies copies;
            rec("act", std::to_string(Id), evName(ev), evId(ev), evTouch(ev), stName(s), stData(s), stName(t), stData(t), 0, true);
        }
        stBump(t);
        maybeThrow("act", std::to_string(Id));
    }
};

} // namespace H
