// Scenario generation, judging, search, minimisation and replay.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <sstream>
#include "sim.hpp"
using namespace sim;
using std::string;
using std::vector;

static double wallnow()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
struct HarnessError { string msg; };

// ------------------------------------------------------------ scenario text form
static string envstr(const Env& e)
{
    char b[256];
    snprintf(b, sizeof b, "garbage=%llu gmode=%d omode=%d nmode=%d place=%llu entropy=%llu time=%llu", (unsigned long long)e.garbage, e.gmode, e.omode, e.nmode, (unsigned long long)e.place, (unsigned long long)e.entropy, (unsigned long long)e.time);
    string q = b;
    if (e.proc) q += " proc=" + std::to_string(e.proc);
    return q;
}
static void envparse(std::istringstream& is, Env& e)
{
    string w;
    while (is >> w) {
        size_t q = w.find('=');
        if (q == string::npos) continue;
        string k = w.substr(0, q);
        uint64_t v = strtoull(w.c_str() + q + 1, 0, 10);
        if (k == "garbage") e.garbage = v;
        else if (k == "gmode") e.gmode = (int)v;
        else if (k == "omode") e.omode = (int)v;
        else if (k == "nmode") e.nmode = (int)v;
        else if (k == "place") e.place = v;
        else if (k == "entropy") e.entropy = v;
        else if (k == "time") e.time = v;
        else if (k == "proc") e.proc = v;
    }
}
static string tostr(const Scenario& s)
{
    std::ostringstream o;
    o << "check " << s.check << "\nseed " << s.seed << "\n";
    if (!s.mode.empty()) o << "mode " << s.mode << "\n";
    o << "env " << envstr(s.env) << "\nenv2 " << envstr(s.env2) << "\nfirst " << s.first << "\n";
    for (size_t i = 0; i < s.slots.size(); ++i) {
        o << "thread " << i << "\n";
        for (auto& v : s.slots[i]) {
            o << "  call " << (v.op.empty() ? "-" : v.op) << " seed=" << v.seed << " size=" << v.size << " variant=" << v.variant << " share=" << v.share << "\n";
            for (auto& e : v.ev) o << "    event " << fkname(e.kind) << " at=" << e.at << " a=" << e.a << " b=" << e.b << " v=" << e.v << "\n";
        }
    }
    return o.str();
}
static Scenario parse(std::istream& in)
{
    Scenario s;
    string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        string w;
        if (!(is >> w) || w[0] == '#') continue;
        if (w == "check") is >> s.check;
        else if (w == "seed") is >> s.seed;
        else if (w == "mode") is >> s.mode;
        else if (w == "env") envparse(is, s.env);
        else if (w == "env2") envparse(is, s.env2);
        else if (w == "first") is >> s.first;
        else if (w == "thread") s.slots.emplace_back();
        else if (w == "call" || w == "event") {
            string n;
            is >> n;
            std::map<string, int64_t> kv;
            std::map<string, uint64_t> ku;
            string x;
            while (is >> x) {
                size_t q = x.find('=');
                if (q == string::npos) continue;
                kv[x.substr(0, q)] = strtoll(x.c_str() + q + 1, 0, 10);
                ku[x.substr(0, q)] = strtoull(x.c_str() + q + 1, 0, 10);
            }
            if (w == "call") {
                OpInv v;
                v.op = n == "-" ? "" : n;
                v.seed = ku["seed"];
                v.size = (int)kv["size"];
                v.variant = (int)kv["variant"];
                v.share = (int)kv["share"];
                s.slots.back().push_back(v);
            }
            else {
                Event e;
                for (int k = 1; k < FK_N; ++k) if (n == fkname(k)) e.kind = k;
                e.at = ku["at"];
                e.a = kv["a"];
                e.b = kv["b"];
                e.v = ku["v"];
                s.slots.back().back().ev.push_back(e);
            }
        }
    }
    return s;
}

// ------------------------------------------------------------ verdict
struct Verdict {
    bool viol = false;
    string cls, op, where, detail;
    uint64_t hash = 0;
    string key() const { return cls + "|" + op; }
};
struct Stats {
    uint64_t runs = 0, scenarios = 0, steps = 0, switches = 0, calls = 0;
    uint64_t fired[FK_N] = {0};
    uint64_t probes[64] = {0};
    uint64_t excs = 0, badalloc = 0, oks = 0, infos = 0;
    std::set<uint64_t> sched, states;
    std::map<string, uint64_t> perop;
    std::map<string, uint64_t> note;
} ST;

static uint64_t fnv(uint64_t h, const void* p, size_t n)
{
    const uint8_t* q = (const uint8_t*)p;
    for (size_t i = 0; i < n; ++i) { h ^= q[i]; h *= 1099511628211ull; }
    return h;
}
struct Run {
    vector<char> store;
    const ChildRes& c() const { return *(const ChildRes*)store.data(); }
    const char* d() const { return store.data() + sizeof(ChildRes); }
    uint64_t hash() const
    {
        uint64_t h = 1469598103934665603ull;
        const ChildRes& r = c();
        h = fnv(h, &r.finished, sizeof r.finished);
        h = fnv(h, &r.crashkind, sizeof r.crashkind);
        h = fnv(h, &r.schedhash, sizeof r.schedhash);
        for (int s = 0; s < MAXSLOT; ++s)
            for (int k = 0; k < MAXOP; ++k) {
                auto& v = r.inv[s][k];
                if (!v.started) continue;
                h = fnv(h, &v.status, sizeof v.status);
                h = fnv(h, &v.ret, sizeof v.ret);
                h = fnv(h, &v.clock, sizeof v.clock);
                h = fnv(h, &v.nalloc, sizeof v.nalloc);
                h = fnv(h, &v.nviol, sizeof v.nviol);
                for (uint32_t i = 0; i < v.noper; ++i) h = fnv(h, d() + v.oper[i].img, v.oper[i].o.span);
            }
        return h;
    }
};
static uint64_t g_hash = 0;
static Run exec(const Scenario& sc, const Env& env, uint64_t budget = 0)
{
    Run r;
    if (!execute(sc, env, r.store, budget)) throw HarnessError{"child failed for scenario\n" + tostr(sc)};
    ST.runs++;
    const ChildRes& c = r.c();
    ST.switches += c.nswitch;
    if (c.nswitch) ST.sched.insert(c.schedhash);
    for (int i = 0; i < 64; ++i) ST.probes[i] += c.probes[i];
    for (size_t s = 0; s < sc.slots.size(); ++s)
        for (size_t k = 0; k < sc.slots[s].size(); ++k) {
            auto& v = c.inv[s][k];
            if (!v.started) continue;
            ST.steps += v.clock;
            ST.calls++;
            for (int f = 0; f < FK_N; ++f) ST.fired[f] += v.fired[f];
            if (v.status == ST_OK) { ST.oks++; if ((v.flags & F_INFO) && v.ret) ST.infos++; }
            else if (v.status == ST_BADALLOC) ST.badalloc++;
            else if (v.status) ST.excs++;
        }
    g_hash = mix(g_hash, r.hash());
    return r;
}
// the call at (s,k) of sc alone in a fresh process, without its events
static Run solo(const Scenario& sc, size_t s, size_t k, const Env& env, bool keepev = false)
{
    Scenario x;
    x.slots.resize(s + 1);
    x.slots[s].resize(k + 1);
    for (size_t i = 0; i < k; ++i) x.slots[s][i].op = "";
    x.slots[s][k] = sc.slots[s][k];
    x.slots[s][k].share = -1;
    if (!keepev) x.slots[s][k].ev.clear();
    x.first = (int)s;
    return exec(x, env);
}
static const char* vkname(int k)
{
    static const char* n[] = {"?", "write-to-input", "write-outside-output", "stray-write", "stray-read", "access-to-freed-memory", "bad-free", "input-changed", "surroundings-changed", "no-termination", "terminate", "signal", "assertion", "deadlock", "access-to-other-thread-data", "no-termination", "runtime-misuse", "undeclared-access", "data-race", "access-outside-acquisition", "trace-left"};
    return n[k];
}
static bool crashed(const Run& r, const Scenario& sc, Verdict& v)
{
    const ChildRes& c = r.c();
    if (!c.crashkind) {
        if (!c.finished) throw HarnessError{"child ended without a result"};
        return false;
    }
    v.viol = true;
    v.cls = vkname(c.crashkind);
    v.op = "?";
    if (c.crashslot < (int)sc.slots.size() && c.crashop < (int)sc.slots[c.crashslot].size()) v.op = sc.slots[c.crashslot][c.crashop].op;
    v.where = c.crashwhere;
    char b[500];
    snprintf(b, sizeof b, "%s (signal %d) in call %s at step %llu: %s", v.cls.c_str(), c.crashed, v.op.c_str(), (unsigned long long)c.inv[c.crashslot][c.crashop].clock, c.crashwhere);
    v.detail = b;
    return true;
}
static string elemstr(const Operand& o, const char* img, size_t comp)
{
    uint32_t cs = (o.kind == 'c' || o.kind == 'z') ? o.esize / 2 : o.esize;
    char b[64];
    const char* p = img + comp * cs;
    if (o.kind == 's' || o.kind == 'c') { float f; memcpy(&f, p, 4); snprintf(b, sizeof b, "%.9g", f); }
    else if (o.kind == 'd' || o.kind == 'z') { double f; memcpy(&f, p, 8); snprintf(b, sizeof b, "%.17g", f); }
    else if (cs == 4) { int f; memcpy(&f, p, 4); snprintf(b, sizeof b, "%d", f); }
    else if (cs == 8) { long f; memcpy(&f, p, 8); snprintf(b, sizeof b, "%ld", f); }
    else snprintf(b, sizeof b, "0x%02x..", (unsigned char)*p);
    return b;
}
// true when the outcomes of one call differ
static bool differ(const Run& A, const InvRes& a, const Run& B, const InvRes& b, string& how, string& where)
{
    char t[400];
    where = "";
    if (a.status != b.status) {
        snprintf(t, sizeof t, "outcome %s (%s) instead of %s (%s)", stname(b.status), b.what, stname(a.status), a.what);
        how = t;
        where = "status";
        return true;
    }
    if (a.status != ST_OK) return false;
    if (a.ret != b.ret) {
        snprintf(t, sizeof t, "return value %lld instead of %lld", (long long)b.ret, (long long)a.ret);
        how = t;
        where = "return";
        return true;
    }
    if ((a.flags & F_INFO) && a.ret != 0) return false;
    if (a.noper != b.noper) { how = "operand tables differ"; where = "operands"; return true; }
    for (uint32_t i = 0; i < a.noper; ++i) {
        const OperRes &x = a.oper[i], &y = b.oper[i];
        const char *ia = A.d() + x.img, *ib = B.d() + y.img, *ca = A.d() + x.cls;
        if (x.o.span != y.o.span) { how = string("size of operand ") + x.o.name; where = x.o.name; return true; }
        uint32_t cs = (x.o.kind == 'c' || x.o.kind == 'z') ? x.o.esize / 2 : x.o.esize;
        for (size_t q = 0; q < x.o.span; q += cs)
            if ((ca[q] == C_OUT || ca[q] == C_INOUT) && memcmp(ia + q, ib + q, cs)) {
                // NaN compares equal to NaN whatever its sign and payload
                if (x.o.kind == 's' || x.o.kind == 'c') { float f, g; memcpy(&f, ia + q, 4); memcpy(&g, ib + q, 4); if (f != f && g != g) continue; }
                if (x.o.kind == 'd' || x.o.kind == 'z') { double f, g; memcpy(&f, ia + q, 8); memcpy(&g, ib + q, 8); if (f != f && g != g) continue; }
                snprintf(t, sizeof t, "output %s, component %zu: %s instead of %s", x.o.name, q / cs, elemstr(y.o, ib, q / cs).c_str(), elemstr(x.o, ia, q / cs).c_str());
                how = t;
                where = x.o.name;
                return true;
            }
    }
    return false;
}
static bool footprint(const Run& r, const Scenario& sc, std::initializer_list<int> kinds, Verdict& v)
{
    for (size_t s = 0; s < sc.slots.size(); ++s)
        for (size_t k = 0; k < sc.slots[s].size(); ++k) {
            auto& iv = r.c().inv[s][k];
            for (uint32_t i = 0; i < iv.nviol; ++i) {
                auto& q = iv.viol[i];
                if (std::find(kinds.begin(), kinds.end(), q.kind) == kinds.end()) continue;
                v.viol = true;
                v.cls = vkname(q.kind);
                v.op = sc.slots[s][k].op;
                v.where = q.where;
                char b[500];
                snprintf(b, sizeof b, "%s: operand %s element %lld at step %llu of call %s (in %s)", v.cls.c_str(), q.oper, (long long)q.elem, (unsigned long long)q.clock, v.op.c_str(), q.where);
                v.detail = b;
                return true;
            }
        }
    return false;
}

// ------------------------------------------------------------ generators
static vector<const OpInfo*> g_sel;          // operations in scope of the check
static int g_tier = 0;
static int sizeof_inv(Rng& r, const OpInfo* o)
{
    double u = r.unit();
    if (u < 0.25) return 3;
    if (u < 0.75) return 7;
    if (u < 0.95) return 13;
    if (u < 0.98) return (o->attr & A_HEAVY) ? 18 : 26;
    return (o->attr & A_HEAVY) ? 24 : 44; // above the usual block sizes (32)
}
static Env randenv(Rng& r)
{
    Env e;
    e.garbage = r.next() >> 8;
    e.gmode = (int)r.below(6);
    e.omode = (int)r.below(6);
    e.nmode = (int)r.below(6);
    e.place = r.next() >> 8;
    e.entropy = r.next() >> 8;
    e.time = r.next() >> 20;
    return e;
}
static OpInv inv(Rng& r, const OpInfo* o)
{
    OpInv v;
    v.op = o->name;
    v.seed = r.next() >> 16;
    v.size = sizeof_inv(r, o);
    return v;
}
static string family(const string& n) { return n.substr(0, n.rfind('.')); }

// switch events for the calls of a scenario, given their solo runs
static void add_schedule(Rng& r, Scenario& sc)
{
    size_t ns = sc.slots.size();
    for (size_t s = 0; s < ns; ++s)
        for (size_t k = 0; k < sc.slots[s].size(); ++k) {
            Run q = solo(sc, s, k, sc.env);
            auto& v = q.c().inv[s][k];
            uint64_t n = v.clock;
            if (n == 0) continue;
            int cnt = (int)r.below(r.chance(0.3) ? 12 : 5);
            if (v.nfw) cnt += 2;
            for (int i = 0; i < cnt; ++i) {
                Event e;
                e.kind = FK_SWITCH;
                double u = r.unit();
                if (v.nfw && u < 0.7) e.at = v.fw[r.below(v.nfw)].clock + 1 + (r.chance(0.3) ? r.below(20) : 0);
                else if (u < 0.8 || !v.nentries) e.at = 1 + r.below(n);
                else e.at = v.entries[r.below(std::min<uint32_t>(64, v.nentries))] + r.below(3);
                e.a = (int64_t)((s + 1 + r.below(ns - 1)) % ns);
                sc.slots[s][k].ev.push_back(e);
            }
            std::sort(sc.slots[s][k].ev.begin(), sc.slots[s][k].ev.end(), [](const Event& a, const Event& b) { return a.at < b.at; });
        }
}

typedef std::function<bool(Rng&, uint64_t, Scenario&)> Gen;   // false: nothing to do for this index
typedef std::function<Verdict(const Scenario&)> Judge;
struct Check { Gen gen; Judge judge; std::function<bool(const OpInfo&)> scope; };

static const OpInfo* oproundrobin(uint64_t i) { return g_sel[i % g_sel.size()]; }

// ---- C01/C02 isolation
static bool gen_iso(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    size_t ns = r.chance(0.75) ? 2 : 3;
    sc.env = randenv(r);
    sc.slots.resize(ns);
    bool share = r.chance(0.5);
    OpInv base = inv(r, o);
    bool same = r.chance(0.7);
    for (size_t s = 0; s < ns; ++s) {
        size_t nk = r.chance(0.8) ? 1 : 2;
        for (size_t k = 0; k < nk; ++k) {
            OpInv v;
            if (share && k == 0) { v = base; if (s) v.share = 0; }
            else if (same || s == 0) v = inv(r, o);
            else v = inv(r, g_sel[r.below(g_sel.size())]);
            if ((findop(v.op)->attr & A_WORK) && r.chance(0.5)) v.variant = 1;   // the allocating twin
            sc.slots[s].push_back(v);
        }
    }
    sc.first = (int)r.below(ns);
    add_schedule(r, sc);
    return true;
}
static Verdict judge_iso(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env);
    if (crashed(r, sc, v)) {
        // only blame concurrency when the call alone does not crash
        size_t s = r.c().crashslot, k = r.c().crashop;
        Run q = solo(sc, s, k, sc.env);
        if (q.c().crashkind) { v = Verdict(); ST.note["crash-alone-too"]++; }
        return v;
    }
    for (size_t s = 0; s < sc.slots.size(); ++s)
        for (size_t k = 0; k < sc.slots[s].size(); ++k) {
            Run q = solo(sc, s, k, sc.env);
            if (q.c().crashkind) { ST.note["crash-alone"]++; continue; }
            string how, wh;
            if (differ(q, q.c().inv[s][k], r, r.c().inv[s][k], how, wh)) {
                v.viol = true;
                v.cls = "differs-from-alone";
                v.op = sc.slots[s][k].op;
                v.where = wh;
                v.detail = "thread " + std::to_string(s) + ", call " + v.op + ": " + how;
                return v;
            }
        }
    // storage around a caller's own may be another caller's
    footprint(r, sc, {V_WRITE_IN, V_FINAL_IN, V_WRITE_NOREF, V_FINAL_NOREF, V_STRAY_W, V_OTHER_SLOT}, v);
    return v;
}
// ---- C03 footprint
static void maybe_mutations(Rng& r, Scenario& sc, uint64_t n, int maxn)
{
    int m = (int)r.below(maxn + 1);
    for (int i = 0; i < m; ++i) {
        Event e;
        e.kind = FK_MUTATE;
        e.at = r.below(n + 1);
        e.v = r.next() >> 16;
        sc.slots[0][0].ev.push_back(e);
    }
}
static bool gen_foot(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    sc.slots.resize(1);
    sc.slots[0].push_back(inv(r, o));
    if ((o->attr & A_WORK) && r.chance(0.3)) sc.slots[0][0].variant = 1;
    Run q = solo(sc, 0, 0, sc.env);
    auto& v = q.c().inv[0][0];
    maybe_mutations(r, sc, v.clock, 3);
    if (v.nalloc && r.chance(0.3)) {
        Event e;
        e.kind = FK_ALLOC;
        e.at = r.below(v.nalloc);
        e.a = r.below(2);
        sc.slots[0][0].ev.push_back(e);
    }
    return true;
}
static Verdict judge_foot(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env);
    if (footprint(r, sc, {V_WRITE_IN, V_WRITE_NOREF, V_STRAY_W, V_STRAY_R, V_FREED, V_BADFREE, V_FINAL_IN, V_FINAL_NOREF, V_OTHER_SLOT}, v)) return v;
    Verdict w;
    if (crashed(r, sc, w) && (r.c().crashkind == V_SIGNAL)) return w;
    return v;
}
// ---- C04 unreferenced storage
static bool gen_noref(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    sc.env.nmode = 3;
    sc.env.omode = 3;
    sc.env2 = sc.env;
    sc.env2.nmode = (int)r.below(6);
    sc.env2.omode = (int)r.below(6);
    sc.env2.garbage = r.next() >> 8;
    if (sc.env.gmode != 0 && sc.env.gmode != 2) sc.env.gmode = sc.env2.gmode = (sc.env.gmode & 1) ? 0 : 2;  // fill independent of the garbage seed
    sc.slots.resize(1);
    sc.slots[0].push_back(inv(r, o));
    if ((o->attr & A_WORK) && r.chance(0.3)) sc.slots[0][0].variant = 1;
    Run q = solo(sc, 0, 0, sc.env);
    maybe_mutations(r, sc, q.c().inv[0][0].clock, 4);
    return true;
}
// ---- C07 environment
static bool gen_env(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    sc.env.gmode = 0;
    sc.env.omode = 0;
    sc.env.nmode = 3;
    sc.env2 = randenv(r);
    sc.env2.nmode = 3;
    if (r.chance(0.2)) sc.env2.omode = 0;
    if (r.chance(0.2)) sc.env2.gmode = sc.env.gmode;
    if (r.chance(0.3)) sc.env2.place = sc.env.place;
    sc.slots.resize(1);
    sc.slots[0].push_back(inv(r, o));
    if ((o->attr & A_WORK) && r.chance(0.5)) sc.slots[0][0].variant = 1;
    return true;
}
static Verdict judge_twoenv(const Scenario& sc)
{
    Verdict v;
    Run a = solo(sc, 0, 0, sc.env);
    if (a.c().crashkind) { ST.note["crash-in-reference"]++; return v; }
    Run b = exec(sc, sc.env2);
    if (crashed(b, sc, v)) return v;
    string how, wh;
    if (differ(a, a.c().inv[0][0], b, b.c().inv[0][0], how, wh)) {
        v.viol = true;
        v.cls = sc.check == "C04" ? "unreferenced-storage-matters" : "environment-matters";
        v.op = sc.slots[0][0].op;
        v.where = wh;
        v.detail = "call " + v.op + ": " + how;
    }
    return v;
}
// ---- C05 allocation failure
static bool gen_alloc(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    sc.slots.resize(1);
    OpInv v = inv(r, o);
    if (o->attr & A_WORK) v.variant = 1;
    sc.slots[0].push_back(v);
    Run q = solo(sc, 0, 0, sc.env);
    uint32_t n = q.c().inv[0][0].nalloc;
    if (n == 0) { ST.note["no-allocation"]++; return false; }
    Event e;
    e.kind = FK_ALLOC;
    // enumerate the positions over successive rounds, sampling when there are many
    uint64_t round = i / g_sel.size();
    // (then mostly the first request of each distinct call path)
    auto& q0 = q.c().inv[0][0];
    if (n <= 8) e.at = (round + mix(7, i % g_sel.size())) % n;
    else if (q0.nasite && r.chance(0.6)) e.at = q0.asite[r.below(q0.nasite)];
    else e.at = r.below(n);
    e.a = (int64_t)((round / 2) & 1);
    sc.slots[0][0].ev.push_back(e);
    sc.slots[0].push_back(v);        // retry
    if (r.chance(0.4)) {
        const OpInfo* o2 = r.chance(0.5) ? o : g_sel[r.below(g_sel.size())];
        OpInv w = inv(r, o2);
        if (o2->attr & A_WORK) w.variant = 1;
        sc.slots[0].push_back(w);
    }
    return true;
}
static Verdict judge_alloc(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env);
    if (crashed(r, sc, v)) {
        Run q = solo(sc, r.c().crashslot, r.c().crashop, sc.env);
        if (q.c().crashkind) { v = Verdict(); ST.note["crash-alone-too"]++; }
        return v;
    }
    for (size_t k = 0; k < sc.slots[0].size(); ++k) {
        auto& iv = r.c().inv[0][k];
        const OpInv& spec = sc.slots[0][k];
        bool faulted = false;
        for (auto& e : spec.ev) if (e.kind == FK_ALLOC) faulted = true;
        v.op = spec.op;
        if (iv.live != 0) {
            v.viol = true;
            v.cls = "leak";
            v.detail = "call " + v.op + " (" + stname(iv.status) + ") left " + std::to_string(iv.live) + " blocks (" + std::to_string(iv.livebytes) + " bytes) allocated";
            return v;
        }
        if (faulted && iv.nfail && iv.status != ST_OK) {
            ST.note["reported"]++;
            continue;
        }
        Run q = solo(sc, 0, k, sc.env);
        if (q.c().crashkind) continue;
        string how, wh;
        if (differ(q, q.c().inv[0][k], r, iv, how, wh)) {
            v.viol = true;
            v.cls = faulted ? "wrong-result-after-failed-allocation" : "result-differs-after-failure";
            v.where = wh;
            v.detail = string(faulted ? "call with failing allocation " : "call after a failed call: ") + v.op + ": " + how;
            return v;
        }
    }
    if (footprint(r, sc, {V_FINAL_IN, V_FINAL_NOREF, V_FREED, V_BADFREE}, v)) return v;
    v = Verdict();
    return v;
}
// ---- C06 workspace
static bool gen_work(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    sc.env2 = sc.env;
    sc.env2.omode = (int)r.below(6);
    sc.env2.garbage = r.next() >> 8;
    sc.slots.resize(1);
    OpInv v = inv(r, o);
    Event e;
    e.kind = FK_ALLOC;
    e.at = 0;
    e.a = 1;
    v.ev.push_back(e);
    sc.slots[0].push_back(v);
    return true;
}
static Verdict judge_work(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env2);
    if (crashed(r, sc, v)) return v;
    auto& iv = r.c().inv[0][0];
    v.op = sc.slots[0][0].op;
    if (footprint(r, sc, {V_STRAY_W, V_STRAY_R, V_WRITE_NOREF, V_FREED}, v)) return v;
    Scenario t = sc;
    if (findop(v.op)->attr & A_WORK) t.slots[0][0].variant = 1;
    Run q = solo(t, 0, 0, sc.env);
    if (q.c().crashkind) { ST.note["crash-in-reference"]++; return Verdict(); }
    // a call that ends by exception builds the exception object (its message) on the heap
    bool throws = q.c().inv[0][0].status != ST_OK && q.c().inv[0][0].status != ST_BADALLOC;
    if ((iv.nalloc || iv.nfail) && !throws) {
        v.viol = true;
        v.cls = "workspace-variant-allocates";
        v.detail = "call " + v.op + " acquired memory although it was given its workspace (" + std::to_string(iv.nfail) + " requests, refused; outcome " + stname(iv.status) + ")";
        return v;
    }
    if (!(findop(v.op)->attr & A_WORK)) return Verdict();
    string how, wh;
    // the simulator refuses the memory for the message of an exception: look at the undisturbed call too
    for (const InvRes* z : {(const InvRes*)&iv, (const InvRes*)&q.c().inv[0][0]})
        if (z->status == ST_DOMAIN || z->status == ST_EXC || z->status == ST_UNKNOWN) {
            v.viol = true;
            v.cls = "workspace-refused";
            v.detail = "call " + v.op + " with workspace of the queried size ended with " + stname(z->status) + " (" + z->what + ")";
            return v;
        }
    if (q.c().inv[0][0].status != ST_OK && iv.status == ST_BADALLOC) { v = Verdict(); return v; }
    if (differ(q, q.c().inv[0][0], r, iv, how, wh)) {
        v.viol = true;
        v.cls = "workspace-variant-differs";
        v.where = wh;
        v.detail = "call " + v.op + " with workspace against the allocating variant: " + how;
        return v;
    }
    return Verdict();
}
// ---- C08 history
static void random_fault(Rng& r, Scenario& sc, size_t k)
{
    OpInv& v = sc.slots[0][k];
    Run q = solo(sc, 0, k, sc.env);
    auto& iv = q.c().inv[0][k];
    double u = r.unit();
    if (u < 0.35 && iv.nalloc) {
        Event e;
        e.kind = FK_ALLOC;
        e.at = r.below(iv.nalloc);
        e.a = r.below(2);
        v.ev.push_back(e);
    }
    else if (u < 0.6) {
        int keep = v.variant;
        v.variant = 101 + (int)r.below(6);
        Run p = solo(sc, 0, k, sc.env);
        if (p.c().crashkind || !(p.c().inv[0][k].flags & F_REJECT)) v.variant = keep;
    }
    else {
        Event e;
        e.kind = FK_CORRUPT;
        e.at = r.below(iv.clock + 1);
        vector<int> fl;
        for (uint32_t i = 0; i < iv.noper; ++i) if (strchr("sdcz", iv.oper[i].o.kind) && iv.oper[i].o.span) fl.push_back((int)i);
        if (fl.empty()) return;
        e.a = fl[r.below(fl.size())];
        auto& o = iv.oper[e.a].o;
        uint32_t cs = (o.kind == 'c' || o.kind == 'z') ? o.esize / 2 : o.esize;
        e.b = (int64_t)r.below(o.span / cs);
        e.v = r.below(10);
        v.ev.push_back(e);
    }
}
static bool gen_hist(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    sc.slots.resize(1);
    size_t n = 1 + r.below(4);
    double psame = r.chance(0.7) ? 0.8 : 0.2;
    for (size_t k = 0; k < n; ++k) {
        const OpInfo* p = r.chance(psame) ? o : g_sel[r.below(g_sel.size())];
        sc.slots[0].push_back(inv(r, p));
        if ((p->attr & A_WORK) && r.chance(0.5)) sc.slots[0].back().variant = 1;
    }
    for (size_t k = 0; k < n; ++k) if (r.chance(0.3)) random_fault(r, sc, k);
    OpInv t = r.chance(0.3) ? sc.slots[0][r.below(n)] : inv(r, o);
    t.ev.clear();
    if (t.variant > 1) t.variant = 0;
    sc.slots[0].push_back(t);
    return true;
}
static bool has_fault(const OpInv& v)
{
    for (auto& e : v.ev) if (e.kind != FK_SWITCH && e.kind != FK_MUTATE) return true;
    return v.variant >= 100;
}
static Verdict judge_hist(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env, 2000000000ull);
    if (crashed(r, sc, v)) {
        size_t k = r.c().crashop;
        if (has_fault(sc.slots[0][k])) { ST.note["crash-in-faulted-call"]++; return Verdict(); }
        Run q = solo(sc, 0, k, sc.env);
        if (q.c().crashkind) { ST.note["crash-alone-too"]++; return Verdict(); }
        return v;
    }
    for (size_t k = 0; k < sc.slots[0].size(); ++k) {
        if (has_fault(sc.slots[0][k])) continue;
        Run q = solo(sc, 0, k, sc.env);
        if (q.c().crashkind) continue;
        string how, wh;
        if (differ(q, q.c().inv[0][k], r, r.c().inv[0][k], how, wh)) {
            v.viol = true;
            v.cls = "depends-on-history";
            v.op = sc.slots[0][k].op;
            v.where = wh;
            v.detail = "call " + std::to_string(k) + " (" + v.op + ") of the history: " + how;
            return v;
        }
    }
    return Verdict();
}
// ---- C09 corrupted data
static bool pick_float(Rng& r, const Run& q, const InvRes& iv, Event& e, bool inputsonly)
{
    vector<std::pair<int, int64_t>> cand;
    vector<int> fl;
    for (uint32_t i = 0; i < iv.noper; ++i) if (strchr("sdcz", iv.oper[i].o.kind) && iv.oper[i].o.span) fl.push_back((int)i);
    if (fl.empty()) return false;
    for (int t = 0; t < 60; ++t) {
        int i = fl[r.below(fl.size())];
        auto& o = iv.oper[i].o;
        uint32_t cs = (o.kind == 'c' || o.kind == 'z') ? o.esize / 2 : o.esize;
        int64_t k = (int64_t)r.below(o.span / cs);
        uint8_t c = (uint8_t)q.d()[iv.oper[i].cls + k * cs];
        bool ok = inputsonly ? ((c == C_IN || c == C_INOUT || c == C_SCRATCH) && !o.nanweak) : (c == C_IN || c == C_INOUT || c == C_SCRATCH || c == C_WORK || c == C_OUT);
        if (ok) { e.a = i; e.b = k; return true; }
    }
    return false;
}
static bool gen_corrupt(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    sc.slots.resize(1);
    sc.slots[0].push_back(inv(r, o));
    if ((o->attr & A_WORK) && r.chance(0.25)) sc.slots[0][0].variant = 1;
    Run q = solo(sc, 0, 0, sc.env);
    auto& iv = q.c().inv[0][0];
    if (q.c().crashkind) { return true; }
    int m = r.chance(0.6) ? 1 : 1 + (int)r.below(6);
    bool whole = r.chance(0.1);
    for (int j = 0; j < m; ++j) {
        Event e;
        e.kind = FK_CORRUPT;
        e.at = r.chance(0.5) || (iv.flags & F_ENTRY) ? 0 : r.below(iv.clock + 1);
        if (!pick_float(r, q, iv, e, false)) return false;
        double u = r.unit();
        e.v = u < 0.35 ? 0 : u < 0.55 ? 1 + r.below(2) : u < 0.8 ? r.below(12) : 16 + r.below(64);
        sc.slots[0][0].ev.push_back(e);
        if (whole) { // a whole stretch of one operand
            auto& op = iv.oper[e.a].o;
            uint32_t cs = (op.kind == 'c' || op.kind == 'z') ? op.esize / 2 : op.esize;
            int64_t n = op.span / cs;
            for (int64_t k = 0; k < std::min<int64_t>(n, 40); ++k) {
                uint8_t c = (uint8_t)q.d()[iv.oper[e.a].cls + k * cs];
                if (c == C_NOREF) continue;
                Event f = e;
                f.b = k;
                sc.slots[0][0].ev.push_back(f);
            }
            break;
        }
    }
    return true;
}
// ---- C19 traces in the process
static bool gen_trace(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    sc.env.proc = 32 | (r.chance(0.1) ? 0 : r.below(8192));
    if (sc.env.proc != 32 && r.chance(0.7)) sc.env.proc |= 4; // another rounding mode than the default
    sc.slots.resize(1);
    for (size_t k = 0, m = 1; k < m; ++k) {
        sc.slots[0].push_back(inv(r, o));
        if ((o->attr & A_WORK) && r.chance(0.5)) sc.slots[0][k].variant = 1;
        Run q = solo(sc, 0, k, sc.env);
        auto& iv = q.c().inv[0][k];
        // iterations: several calls, most of which do not converge
        const bool iter = iv.flags & F_ITER;
        if (iter) m = 4;
        double u = r.unit();
        if (u < (iter ? 0.2 : 0.5)) random_fault(r, sc, k);
        else if (u < (iter ? 0.9 : 0.75)) {
            // failures that come from the data: NaN or infinity from the start
            Event e;
            e.kind = FK_CORRUPT;
            e.v = r.chance(0.7) ? 0 : r.below(12);
            if (!q.c().crashkind && pick_float(r, q, iv, e, iter)) sc.slots[0][k].ev.push_back(e);
        }
    }
    return true;
}
static Verdict judge_trace(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env, 300000000ull);
    for (size_t k = 0; k < sc.slots[0].size(); ++k) {
        auto& iv = r.c().inv[0][k];
        for (uint32_t i = 0; i < iv.nviol; ++i) {
            auto& q = iv.viol[i];
            if (q.kind != V_PROC) continue;
            v.viol = true;
            v.cls = vkname(q.kind);
            v.op = sc.slots[0][k].op;
            v.where = string(q.proc) + " | " + q.where;
            v.detail = "call " + v.op + " (" + stname(iv.status) + "): " + q.proc + (q.where[0] ? string(" (in ") + q.where + ")" : "");
            return v;
        }
    }
    Verdict w;
    if (crashed(r, sc, w)) {
        if (r.c().crashkind == V_ABORT && strstr(r.c().crashwhere, "() called")) return w;
        ST.note["did-not-end"]++;
    }
    return v;
}
static Verdict judge_corrupt(const Scenario& sc)
{
    Verdict v;
    Run q = solo(sc, 0, 0, sc.env);
    if (q.c().crashkind) { crashed(q, sc, v); return v; }
    uint64_t budget = 300 * q.c().inv[0][0].clock + ((q.c().inv[0][0].flags & F_ITER) ? 20000000 : 300000);
    const bool nested = q.c().inv[0][0].flags & F_NESTED;
    if (nested) budget = 60000000;
    Run r = exec(sc, sc.env, budget);
    if (nested && r.c().crashkind == V_HANG) {
        // iterations inside iterations: the number of steps is bounded, but by a large multiple
        ST.note["long-run"]++;
        budget = 6000000000ull;
        // three levels of iteration: the bound is beyond what is worth waiting for
        if (budget / 20000 < q.c().inv[0][0].clock) { ST.note["long-run-not-judged"]++; return v; }
        r = exec(sc, sc.env, budget);
        // the machine was too slow for that many steps
        if (r.c().crashkind == V_TIMEOUT) { ST.note["long-run-not-judged"]++; return v; }
    }
    if (crashed(r, sc, v)) {
        if (r.c().crashkind == V_HANG) v.detail = "no termination within " + std::to_string(budget) + " steps (undisturbed: " + std::to_string(q.c().inv[0][0].clock) + ") of call " + v.op + ": " + v.where;
        return v;
    }
    if (footprint(r, sc, {V_STRAY_W, V_STRAY_R, V_FREED, V_BADFREE, V_WRITE_NOREF, V_WRITE_IN, V_OTHER_SLOT}, v)) return v;
    if (r.c().inv[0][0].live != 0) {
        v.viol = true;
        v.cls = "leak";
        v.op = sc.slots[0][0].op;
        v.detail = "memory not released by call on corrupted data";
    }
    return v;
}
// ---- C10 NaN visibility
static bool gen_nan(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    sc.env.omode = 3;
    sc.env.nmode = 3;
    sc.slots.resize(1);
    sc.slots[0].push_back(inv(r, o));
    if ((o->attr & A_WORK) && r.chance(0.25)) sc.slots[0][0].variant = 1;
    Run q = solo(sc, 0, 0, sc.env);
    auto& iv = q.c().inv[0][0];
    if (q.c().crashkind || (iv.flags & F_NONAN) || iv.status != ST_OK) { ST.note["no-guarantee"]++; return false; }
    Event e;
    e.kind = FK_CORRUPT;
    e.at = 0;
    if (!pick_float(r, q, iv, e, true)) { ST.note["no-element"]++; return false; }
    if ((iv.flags & F_NANSTRONG) && r.chance(0.4)) e.at = (uint64_t)(r.unit() * r.unit() * (double)(iv.clock + 1));
    e.v = 0;
    sc.slots[0][0].ev.push_back(e);
    return true;
}
static bool isbad(const Operand& o, const char* p)
{
    if (o.kind == 's' || o.kind == 'c') { float f; memcpy(&f, p, 4); return !(f - f == 0); }
    if (o.kind == 'd' || o.kind == 'z') { double f; memcpy(&f, p, 8); return !(f - f == 0); }
    return false;
}
static Verdict judge_nan(const Scenario& sc)
{
    Verdict v;
    Scenario p1 = sc, p2 = sc;
    for (auto& e : p1.slots[0][0].ev) e.v = 10;
    for (auto& e : p2.slots[0][0].ev) e.v = 12;
    Run q = solo(sc, 0, 0, sc.env);
    if (q.c().crashkind) { ST.note["crash-in-reference"]++; return v; }
    Run r = exec(sc, sc.env, 300 * q.c().inv[0][0].clock + 300000);
    if (r.c().crashkind) { ST.note["crash-with-nan"]++; return v; }  // C09's business
    const InvRes& iv = r.c().inv[0][0];
    if (iv.status != ST_OK) { ST.note["nan-reported"]++; return v; }
    if (iv.preread) { ST.note["used-before"]++; return v; }
    if ((iv.flags & F_INFO) && iv.ret != 0) { ST.note["nan-status"]++; return v; }
    Run a = exec(p1, sc.env), b = exec(p2, sc.env);
    if (a.c().crashkind || b.c().crashkind) { ST.note["crash-in-perturbed"]++; return v; }
    const InvRes &q0 = q.c().inv[0][0], &a0 = a.c().inv[0][0], &b0 = b.c().inv[0][0];
    string how, wh;
    bool m1 = differ(q, q0, a, a0, how, wh), m2 = differ(q, q0, b, b0, how, wh);
    if (!m1 && !m2) { ST.note["nan-irrelevant"]++; return v; }
    ST.note["nan-relevant"]++;
    bool any = false;
    string lost;
    for (uint32_t i = 0; i < iv.noper; ++i) {
        const OperRes& x = iv.oper[i];
        uint32_t cs = (x.o.kind == 'c' || x.o.kind == 'z') ? x.o.esize / 2 : x.o.esize;
        bool cplx = x.o.kind == 'c' || x.o.kind == 'z';
        for (size_t k = 0; k < x.o.span; k += cs) {
            uint8_t c = (uint8_t)r.d()[x.cls + k];
            if (c != C_OUT && c != C_INOUT) continue;
            bool bad = isbad(x.o, r.d() + x.img + k);
            if (cplx) { size_t h = (k / cs) ^ 1; if (h * cs < x.o.span && isbad(x.o, r.d() + x.img + h * cs)) bad = true; }
            if (bad) any = true;
            else if (strchr("sdcz", x.o.kind) && lost.empty()) {
                bool d1 = memcmp(q.d() + q0.oper[i].img + k, a.d() + a0.oper[i].img + k, cs), d2 = memcmp(q.d() + q0.oper[i].img + k, b.d() + b0.oper[i].img + k, cs);
                if (d1 && d2) lost = string(x.o.name) + " component " + std::to_string(k / cs) + " = " + elemstr(x.o, r.d() + x.img, k / cs);
            }
        }
    }
    // every floating output must show it (strong) or at least one (weak)
    v.op = sc.slots[0][0].op;
    string src = "element " + std::to_string(sc.slots[0][0].ev.empty() ? -1 : sc.slots[0][0].ev[0].b) + " of operand " + (sc.slots[0][0].ev.empty() ? "?" : iv.oper[sc.slots[0][0].ev[0].a].o.name);
    if (!any) {
        v.viol = true;
        v.cls = "nan-lost";
        v.detail = "call " + v.op + ": " + src + " is NaN and matters, but no output is NaN or Inf and success is reported";
        return v;
    }
    if ((iv.flags & F_NANSTRONG) && !lost.empty()) {
        v.viol = true;
        v.cls = "nan-lost-in-output";
        v.detail = "call " + v.op + ": " + src + " is NaN, but the dependent output " + lost;
        return v;
    }
    return Verdict();
}
// ---- C11 rejection
static bool gen_reject(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    sc.slots.resize(1);
    size_t pre = r.below(3);
    for (size_t k = 0; k < pre; ++k) sc.slots[0].push_back(inv(r, r.chance(0.5) ? o : g_sel[r.below(g_sel.size())]));
    OpInv b = inv(r, o);
    // find the violated preconditions this operation has
    uint64_t round = i / g_sel.size();
    bool found = false;
    for (int t = 0; t < 12 && !found; ++t) {
        b.variant = 101 + (int)((round + t) % 12);
        sc.slots[0].push_back(b);
        Scenario probe = sc;
        size_t k = sc.slots[0].size() - 1;
        Run q = solo(probe, 0, k, sc.env);
        if (q.c().inv[0][k].flags & F_REJECT) found = true;
        else sc.slots[0].pop_back();
    }
    if (!found) { ST.note["no-precondition"]++; return false; }
    size_t post = 1 + r.below(2);
    for (size_t k = 0; k < post; ++k) sc.slots[0].push_back(inv(r, k == 0 ? o : g_sel[r.below(g_sel.size())]));
    return true;
}
static Verdict judge_reject(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env, 2000000000ull);
    if (crashed(r, sc, v)) {
        size_t k = r.c().crashop;
        if (sc.slots[0][k].variant < 100) {
            Run q = solo(sc, 0, k, sc.env);
            if (q.c().crashkind) { ST.note["crash-alone-too"]++; return Verdict(); }
        }
        return v;
    }
    for (size_t k = 0; k < sc.slots[0].size(); ++k) {
        auto& iv = r.c().inv[0][k];
        v.op = sc.slots[0][k].op;
        if (iv.flags & F_REJECT) {
            if (iv.status == ST_OK) {
                v.viol = true;
                v.cls = "invalid-call-accepted";
                v.detail = "call " + v.op + " with violated precondition " + std::to_string(sc.slots[0][k].variant - 100) + " returned normally";
                return v;
            }
            if (iv.live) { v.viol = true; v.cls = "leak"; v.detail = "rejected call " + v.op + " leaked"; return v; }
            ST.note["rejected"]++;
            for (uint32_t i = 0; i < iv.nviol; ++i)
                if (iv.viol[i].kind >= V_WRITE_IN && iv.viol[i].kind <= V_FINAL_NOREF) {
                    v.viol = true;
                    v.cls = "rejected-call-writes";
                    v.detail = "rejected call " + v.op + " changed storage";
                    return v;
                }
        }
        else {
            if (!(iv.flags & F_DATAEXC) && (iv.status == ST_DOMAIN || iv.status == ST_EXC || iv.status == ST_UNKNOWN)) {
                v.viol = true;
                v.cls = "consistent-call-rejected";
                v.detail = "call " + v.op + " with consistent arguments ended with " + stname(iv.status) + " (" + iv.what + ")";
                return v;
            }
            Run q = solo(sc, 0, k, sc.env);
            if (q.c().crashkind) continue;
            string how, wh;
            if (differ(q, q.c().inv[0][k], r, iv, how, wh)) {
                v.viol = true;
                v.cls = "call-affected-by-rejected-call";
                v.where = wh;
                v.detail = "call " + std::to_string(k) + " (" + v.op + "): " + how;
                return v;
            }
        }
    }
    return Verdict();
}

// ---- C12 random vectors
static bool gen_rng(Rng& r, uint64_t i, Scenario& sc)
{
    sc.env = randenv(r);
    sc.env2 = randenv(r);
    size_t ns = 1 + r.below(3);
    sc.slots.resize(ns);
    const OpInfo* o = oproundrobin(i);
    for (size_t s = 0; s < ns; ++s) {
        size_t nk = 1 + r.below(3);
        for (size_t k = 0; k < nk; ++k) {
            OpInv v = inv(r, s == 0 && k == nk - 1 ? o : g_sel[r.below(g_sel.size())]);
            if (k > 0 && r.chance(0.3)) v = sc.slots[s][0];
            v.ev.clear();
            sc.slots[s].push_back(v);
        }
    }
    if (ns > 1) add_schedule(r, sc);
    for (size_t s = 0; s < ns; ++s)
        for (auto& v : sc.slots[s])
            if (r.chance(0.35)) {
                Event e;
                e.kind = FK_ENTROPY;
                e.at = r.below(3);
                v.ev.push_back(e);
            }
    sc.first = (int)r.below(ns);
    return true;
}
static Verdict judge_rng(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env2);
    if (crashed(r, sc, v)) return v;
    for (size_t s = 0; s < sc.slots.size(); ++s)
        for (size_t k = 0; k < sc.slots[s].size(); ++k) {
            Run q = solo(sc, s, k, sc.env);
            string how, wh;
            auto& iv = r.c().inv[s][k];
            v.op = sc.slots[s][k].op;
            if (differ(q, q.c().inv[s][k], r, iv, how, wh)) {
                v.viol = true;
                v.cls = "stream-not-a-function-of-the-seed";
                v.where = wh;
                v.detail = "thread " + std::to_string(s) + " call " + v.op + ": " + how;
                return v;
            }
            if (iv.status == ST_OK && iv.ret != 0) {
                v.viol = true;
                v.cls = iv.ret & 2 ? "seed-not-advanced" : "value-out-of-range";
                v.where = "";
                v.detail = "call " + v.op + ": code " + std::to_string(iv.ret);
                return v;
            }
        }
    return Verdict();
}
// ---- C17 arithmetic faults of the number type
static bool gen_arith(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    sc.slots.resize(1);
    OpInv v = inv(r, o);
    if ((o->attr & A_WORK) && r.chance(0.6)) v.variant = 1;
    sc.slots[0].push_back(v);
    Run q = solo(sc, 0, 0, sc.env);
    uint32_t n = q.c().inv[0][0].narith;
    if (!n) { ST.note["no-arithmetic"]++; return false; }
    Event e;
    e.kind = FK_ARITH;
    auto& q0 = q.c().inv[0][0];
    if (q0.nfsite && r.chance(0.5)) e.at = q0.fsite[r.below(q0.nfsite)];
    else e.at = r.below(n);
    sc.slots[0][0].ev.push_back(e);
    sc.slots[0].push_back(v);
    return true;
}
static Verdict judge_arith(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env);
    if (crashed(r, sc, v)) return v;
    for (size_t k = 0; k < sc.slots[0].size(); ++k) {
        auto& iv = r.c().inv[0][k];
        const OpInv& spec = sc.slots[0][k];
        v.op = spec.op;
        if (iv.live != 0) {
            v.viol = true;
            v.cls = "leak";
            v.detail = "call " + v.op + " (" + stname(iv.status) + ") left " + std::to_string(iv.live) + " blocks allocated";
            return v;
        }
        if (iv.fired[FK_ARITH]) {
            if (iv.status != ST_SIMFAULT) {
                v.viol = true;
                v.cls = "exception-of-number-type-lost";
                v.detail = "call " + v.op + " ended with outcome " + stname(iv.status) + " instead of the exception thrown by the number type";
                return v;
            }
            continue;
        }
        Run q = solo(sc, 0, k, sc.env);
        string how, wh;
        if (differ(q, q.c().inv[0][k], r, iv, how, wh)) {
            v.viol = true;
            v.cls = "result-differs-after-failure";
            v.where = wh;
            v.detail = "call " + v.op + ": " + how;
            return v;
        }
    }
    if (footprint(r, sc, {V_FINAL_IN, V_FINAL_NOREF, V_WRITE_IN, V_WRITE_NOREF, V_FREED, V_BADFREE}, v)) return v;
    return Verdict();
}

// ---- C13..C16 simulated task runtime: delays, order and placement of tasks
static void add_tasks(Rng& r, OpInv& v, uint32_t n)
{
    if (!n) return;
    int style = (int)r.below(6);
    uint64_t maxd = r.chance(0.3) ? 2 : r.chance(0.5) ? 12 : 4000;
    int64_t fl = 0;
    for (int b : {1, 2, 4, 8, 16}) if (r.chance(0.4)) fl |= b;
    auto add = [&](uint64_t at) {
        Event e;
        e.kind = FK_TASK;
        e.at = at;
        e.a = style == 0 ? 0 : style == 1 ? (int64_t)maxd : style == 2 ? (int64_t)(r.chance(0.2) ? 100000 : 0) : (int64_t)r.below(maxd + 1);
        e.b = r.chance(0.6) ? fl : (int64_t)r.below(32);
        e.v = r.next() >> 1;
        v.ev.push_back(e);
    };
    if (style == 5) { for (int q = 0, c = 1 + (int)r.below(3); q < c; ++q) add(r.below(n)); }   // few
    else if (n <= 96) { double p = r.chance(0.5) ? 1 : 0.5; for (uint32_t k = 0; k < n; ++k) if (r.chance(p)) add(k); }
    else { uint64_t b = r.below(n); for (int q = 0; q < 96; ++q) add(r.chance(0.5) ? (b + q) % n : r.below(n)); }
    std::sort(v.ev.begin(), v.ev.end(), [](const Event& a, const Event& b) { return a.at < b.at; });
    v.ev.erase(std::unique(v.ev.begin(), v.ev.end(), [](const Event& a, const Event& b) { return a.at == b.at; }), v.ev.end());
}
static bool gen_task(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    int ns = r.chance(0.15) ? 2 : 1;
    sc.slots.resize(ns);
    for (int s = 0; s < ns; ++s) {
        int nk = r.chance(0.15) ? 2 : 1;
        for (int k = 0; k < nk; ++k) {
            const OpInfo* q = s + k == 0 ? o : g_sel[r.below(g_sel.size())];
            OpInv v = inv(r, q);
            if (r.chance(0.8) && v.size > 13) v.size = 13;
            sc.slots[s].push_back(v);
            Run z = solo(sc, s, k, sc.env);
            add_tasks(r, sc.slots[s][k], z.c().inv[s][k].ntask);
        }
    }
    if (ns > 1) add_schedule(r, sc);
    return true;
}
static bool st_inv(const Run& r, const Scenario& sc, Verdict& v, const char* cls)
{
    for (size_t s = 0; s < sc.slots.size(); ++s)
        for (size_t k = 0; k < sc.slots[s].size(); ++k) {
            auto& iv = r.c().inv[s][k];
            v.op = sc.slots[s][k].op;
            if (iv.flags & F_REJECT) continue;
            if (iv.status != ST_OK) { v.viol = true; v.cls = "unexpected-exception"; v.where = iv.what; v.detail = "call " + v.op + ": " + stname(iv.status) + " (" + iv.what + ")"; return true; }
            if (iv.ret != 0) { v.viol = true; v.cls = cls; v.where = std::to_string(iv.ret); v.detail = "call " + v.op + ": the program on tiled matrices gives another result than on plain matrices (code " + std::to_string(iv.ret) + ")"; return true; }
        }
    return false;
}
static Verdict judge_task(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env);
    if (crashed(r, sc, v)) return v;
    // the program itself used managed data that it did not hold
    if (footprint(r, sc, {V_ST_ACQ}, v)) return v;
    if (st_inv(r, sc, v, "not-sequential-result")) return v;
    for (size_t s = 0; s < sc.slots.size(); ++s)
        for (size_t k = 0; k < sc.slots[s].size(); ++k) {
            auto& iv = r.c().inv[s][k];
            v.op = sc.slots[s][k].op;
            if (iv.flags & F_REJECT) continue;
            Run q = solo(sc, s, k, sc.env);
            string how, wh;
            if (q.c().crashkind) { crashed(q, sc, v); return v; }
            if (differ(q, q.c().inv[s][k], r, iv, how, wh)) { v.viol = true; v.cls = "schedule-changes-result"; v.where = wh; v.detail = "call " + v.op + ": " + how; return v; }
        }
    return Verdict();
}
static Verdict judge_taskfoot(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env);
    if (footprint(r, sc, {V_WRITE_IN, V_WRITE_NOREF, V_STRAY_W, V_STRAY_R, V_FREED, V_BADFREE, V_FINAL_IN, V_FINAL_NOREF, V_OTHER_SLOT, V_ST_FOOT, V_ST_ACQ}, v)) return v;
    Verdict w;
    if (crashed(r, sc, w) && r.c().crashkind == V_SIGNAL) return w;
    return v;
}
static Verdict judge_tasklife(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env);
    if (crashed(r, sc, v)) return v;
    if (footprint(r, sc, {V_ST_RULE, V_FREED, V_BADFREE}, v)) return v;
    if (st_inv(r, sc, v, "final-values-lost")) return v;
    for (size_t s = 0; s < sc.slots.size(); ++s)
        for (size_t k = 0; k < sc.slots[s].size(); ++k) {
            auto& iv = r.c().inv[s][k];
            v.op = sc.slots[s][k].op;
            if ((iv.flags & F_REJECT) && iv.status == ST_OK) { v.viol = true; v.cls = "invalid-call-accepted"; v.detail = "call " + v.op + " with mismatched tiles returned normally"; return v; }
            if (iv.live) { v.viol = true; v.cls = "leak"; v.detail = "call " + v.op + " left " + std::to_string(iv.live) + " blocks allocated"; return v; }
        }
    return Verdict();
}

// ---- C18 parallel regions
static bool gen_team(Rng& r, uint64_t i, Scenario& sc)
{
    const OpInfo* o = oproundrobin(i);
    sc.env = randenv(r);
    int ns = r.chance(0.1) ? 2 : 1;
    sc.slots.resize(ns);
    uint64_t regs = 0;
    for (int s = 0; s < ns; ++s) {
        sc.slots[s].push_back(inv(r, s ? g_sel[r.below(g_sel.size())] : o));
        Run z = solo(sc, s, 0, sc.env);
        uint32_t n = z.c().inv[s][0].nregion;
        regs += n;
        for (uint32_t k = 0; k < n; ++k) {
            Event e;
            e.kind = FK_TEAM;
            e.at = k;
            e.a = 2 + (int64_t)r.below(r.chance(0.5) ? 2 : 7);
            double u = r.unit();
            e.b = u < 0.15 ? 0 : u < 0.35 ? 1 + (int64_t)r.below(8) : u < 0.7 ? 20 + (int64_t)r.below(500) : 1000 + (int64_t)r.below(20000);
            e.v = r.next() >> 1;
            sc.slots[s][0].ev.push_back(e);
        }
    }
    if (!regs) { ST.note["no-parallel-region"]++; return false; }
    if (ns > 1) add_schedule(r, sc);
    return true;
}
static Verdict judge_team(const Scenario& sc)
{
    Verdict v;
    Run r = exec(sc, sc.env);
    if (crashed(r, sc, v)) return v;
    if (footprint(r, sc, {V_RACE}, v)) return v;
    for (size_t s = 0; s < sc.slots.size(); ++s)
        for (size_t k = 0; k < sc.slots[s].size(); ++k) {
            v.op = sc.slots[s][k].op;
            Run q = solo(sc, s, k, sc.env);
            string how, wh;
            if (q.c().crashkind) { ST.note["crash-alone-too"]++; return Verdict(); }
            if (differ(q, q.c().inv[s][k], r, r.c().inv[s][k], how, wh)) { v.viol = true; v.cls = "team-changes-result"; v.where = wh; v.detail = "call " + v.op + ": " + how; return v; }
        }
    if (footprint(r, sc, {V_STRAY_W, V_STRAY_R, V_WRITE_IN, V_WRITE_NOREF, V_FREED, V_BADFREE}, v)) return v;
    return Verdict();
}

static std::map<string, Check> checks()
{
    std::map<string, Check> m;
    auto cpp = [](const OpInfo& o) { return (o.attr & (A_CPP | A_CAPI)) && !(o.attr & (A_RNG | A_FAULTNUM | A_STARPU | A_OMP)); };
    auto any = [](const OpInfo& o) { return !(o.attr & (A_FAULTNUM | A_STARPU | A_OMP)); };
    m["C01"] = {gen_iso, judge_iso, [](const OpInfo& o) { return (o.attr & A_CPP) && !(o.attr & (A_FAULTNUM | A_STARPU | A_OMP)); }};
    m["C02"] = {gen_iso, judge_iso, [](const OpInfo& o) { return (o.attr & A_CAPI) != 0; }};
    m["C03"] = {gen_foot, judge_foot, any};
    m["C04"] = {gen_noref, judge_twoenv, any};
    m["C05"] = {gen_alloc, judge_alloc, any};
    m["C06"] = {gen_work, judge_work, [](const OpInfo& o) { return (o.attr & A_WORK) && !(o.attr & A_FAULTNUM); }};
    m["C07"] = {gen_env, judge_twoenv, any};
    m["C08"] = {gen_hist, judge_hist, any};
    m["C19"] = {gen_trace, judge_trace, [](const OpInfo& o) { return !(o.attr & (A_STARPU | A_OMP)); }};
    m["C09"] = {gen_corrupt, judge_corrupt, cpp};
    m["C10"] = {gen_nan, judge_nan, cpp};
    m["C11"] = {gen_reject, judge_reject, cpp};
    m["C12"] = {gen_rng, judge_rng, [](const OpInfo& o) { return (o.attr & A_RNG) != 0; }};
    m["C17"] = {gen_arith, judge_arith, [](const OpInfo& o) { return (o.attr & A_FAULTNUM) != 0; }};
    auto st = [](const OpInfo& o) { return (o.attr & A_STARPU) != 0; };
    auto elemprog = [](const OpInfo& o) {
        string n = o.name;
        for (const char* p : {"st_elem", "st_mixed", "st_life", "st_create", "st_getrf", "st_lahqr"}) if (n.rfind(p, 0) == 0) return true;
        return false;
    };
    m["C13"] = {gen_task, judge_task, [=](const OpInfo& o) { return st(o) && !elemprog(o) && !(o.attr & A_REJECT); }};
    m["C14"] = {gen_task, judge_task, [=](const OpInfo& o) { return st(o) && elemprog(o); }};
    m["C15"] = {gen_task, judge_taskfoot, [=](const OpInfo& o) { return st(o) && !(o.attr & A_REJECT); }};
    m["C16"] = {gen_task, judge_tasklife, st};
    m["C18"] = {gen_team, judge_team, [](const OpInfo& o) { return (o.attr & A_OMP) != 0; }};
    return m;
}

// ------------------------------------------------------------ minimisation
static Scenario minimise(const Scenario& s0, const Check& ck, const string& key, double tmax)
{
    Scenario s = s0;
    double t0 = wallnow();
    auto fails = [&](const Scenario& c) {
        try { Verdict v = ck.judge(c); return v.viol && v.key() == key; }
        catch (HarnessError&) { return false; }
    };
    bool progress = true;
    while (progress && wallnow() - t0 < tmax) {
        progress = false;
        auto attempt = [&](const Scenario& c) {
            if (wallnow() - t0 > tmax) return false;
            if (fails(c)) { s = c; progress = true; return true; }
            return false;
        };
        // drop threads
        for (size_t i = s.slots.size(); i-- > 0 && s.slots.size() > 1;) {
            Scenario c = s;
            c.slots.erase(c.slots.begin() + i);
            if (c.first >= (int)c.slots.size()) c.first = 0;
            for (auto& sl : c.slots) for (auto& v : sl) { if (v.share == (int)i) v.share = -1; else if (v.share > (int)i) v.share--; }
            attempt(c);
        }
        // drop calls
        for (size_t i = 0; i < s.slots.size(); ++i)
            for (size_t k = s.slots[i].size(); k-- > 0;) {
                if (s.slots[i].size() == 1) break;
                Scenario c = s;
                c.slots[i].erase(c.slots[i].begin() + k);
                attempt(c);
            }
        // drop events (halves first)
        for (size_t i = 0; i < s.slots.size(); ++i)
            for (size_t k = 0; k < s.slots[i].size(); ++k) {
                while (s.slots[i][k].ev.size() > 3) {
                    size_t n = s.slots[i][k].ev.size();
                    Scenario c = s;
                    c.slots[i][k].ev.erase(c.slots[i][k].ev.begin() + n / 2, c.slots[i][k].ev.end());
                    if (attempt(c)) continue;
                    c = s;
                    c.slots[i][k].ev.erase(c.slots[i][k].ev.begin(), c.slots[i][k].ev.begin() + n / 2);
                    if (!attempt(c)) break;
                }
                for (size_t e = s.slots[i][k].ev.size(); e-- > 0;) {
                    Scenario c = s;
                    c.slots[i][k].ev.erase(c.slots[i][k].ev.begin() + e);
                    attempt(c);
                }
            }
        // smaller teams, no preemption; undelayed and local tasks
        for (size_t i = 0; i < s.slots.size(); ++i)
            for (size_t k = 0; k < s.slots[i].size(); ++k)
                for (size_t e = 0; e < s.slots[i][k].ev.size(); ++e) {
                    auto& x = s.slots[i][k].ev[e];
                    if (x.kind != FK_TEAM && x.kind != FK_TASK) continue;
                    for (int f = 0; f < 2; ++f) {
                        Scenario c = s;
                        auto& y = c.slots[i][k].ev[e];
                        if (f == 0) { if (x.kind == FK_TEAM ? x.a <= 2 : x.a == 0) continue; y.a = x.kind == FK_TEAM ? 2 : 0; }
                        else { if (x.b == 0) continue; y.b = 0; }
                        attempt(c);
                    }
                }
        // smaller problems
        for (size_t i = 0; i < s.slots.size(); ++i)
            for (size_t k = 0; k < s.slots[i].size(); ++k)
                for (int z : {1, 2, 3, 4, 6, 9}) {
                    if (z >= s.slots[i][k].size) break;
                    Scenario c = s;
                    c.slots[i][k].size = z;
                    for (auto& sl : c.slots) if (k < sl.size() && sl[k].share >= 0 && (sl[k].share == (int)i || &sl == &c.slots[i])) for (auto& t : c.slots) if (k < t.size() && t[k].op == s.slots[i][k].op) t[k].size = z;
                    if (attempt(c)) break;
                    bool found = false;
                    for (int tr = 1; tr <= 6 && !found; ++tr) { Scenario d = c; d.slots[i][k].seed = tr; found = attempt(d); }
                    if (found) break;
                }
        // plainer environment
        for (int f = 0; f < 7; ++f) {
            Scenario c = s;
            Env* e[2] = {&c.env, &c.env2};
            string before = tostr(c);
            for (Env* x : e) {
                if (f == 0) x->place = 0;
                if (f == 1) x->time = 1;
                if (f == 2) x->entropy = 1;
                if (f == 3) x->gmode = 0;
                if (f == 4) x->omode = c.check == "C04" || c.check == "C10" ? 3 : 0;
                if (f == 5) x->garbage = 1;
                if (f == 6 && x->proc) x->proc = 32; // default settings, still compared
            }
            if (tostr(c) != before) attempt(c);
        }
    }
    return s;
}

static string jesc(const string& s)
{
    string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}
static void print_verdict(const Verdict& v, uint64_t hash)
{
    printf("{\"viol\":%s,\"cls\":\"%s\",\"op\":\"%s\",\"where\":\"%s\",\"detail\":\"%s\",\"hash\":\"%016llx\"}\n", v.viol ? "true" : "false", jesc(v.cls).c_str(), jesc(v.op).c_str(), jesc(v.where).c_str(), jesc(v.detail).c_str(), (unsigned long long)hash);
}

int main(int argc, char** argv)
{
    std::map<string, string> a;
    for (int i = 1; i < argc; ++i) {
        string k = argv[i];
        if (k.substr(0, 2) == "--" && i + 1 < argc) { a[k.substr(2)] = argv[++i]; }
    }
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    sim_init();
    load_libs(a["libs"]);
    auto cks = checks();
    if (a.count("list")) {
        for (auto& o : ops()) printf("%s %u\n", o.name, o.attr);
        return 0;
    }
    try {
        if (a.count("replay") || a.count("minimise")) {
            string fn = a.count("replay") ? a["replay"] : a["minimise"];
            std::ifstream f(fn);
            if (!f) { fprintf(stderr, "cannot open %s\n", fn.c_str()); return 3; }
            Scenario sc = parse(f);
            if (!cks.count(sc.check)) { fprintf(stderr, "unknown check in %s\n", fn.c_str()); return 3; }
            const Check& ck = cks[sc.check];
            g_hash = 0;
            Verdict v = ck.judge(sc);
            if (a.count("minimise") && v.viol) {
                Scenario m = minimise(sc, ck, v.key(), a.count("maxsec") ? atof(a["maxsec"].c_str()) : 30);
                g_hash = 0;
                v = ck.judge(m);
                std::ofstream o(a["out"]);
                o << "# " << v.detail << "\n# violation class: " << v.cls << "\n" << tostr(m);
            }
            print_verdict(v, g_hash);
            return 0;
        }
        string chk = a["check"];
        if (!cks.count(chk)) { fprintf(stderr, "unknown check\n"); return 3; }
        const Check& ck = cks[chk];
        string only = a["only"];
        for (auto& o : ops())
            if (ck.scope(o) && (only.empty() || family(o.name) == only || only == o.name)) g_sel.push_back(&o);
        std::sort(g_sel.begin(), g_sel.end(), [](const OpInfo* x, const OpInfo* y) { return mix(1, fnv(77, x->name, strlen(x->name))) < mix(1, fnv(77, y->name, strlen(y->name))); });
        if (g_sel.empty()) { fprintf(stderr, "no operations in scope\n"); return 3; }
        uint64_t seed = strtoull(a["seed"].c_str(), 0, 10), from = strtoull(a["from"].c_str(), 0, 10), step = strtoull(a["step"].c_str(), 0, 10), count = strtoull(a["count"].c_str(), 0, 10);
        double maxsec = a.count("maxsec") ? atof(a["maxsec"].c_str()) : 1e9;
        int maxviol = a.count("maxviol") ? atoi(a["maxviol"].c_str()) : 20;
        bool dbl = a.count("double");
        string outp = a["out"];
        if (!step) step = 1;
        double t0 = wallnow();
        if (a.count("sample")) {  // print a few scenarios of this exploration
            int want = atoi(a["sample"].c_str());
            for (uint64_t j = from; j < count && want > 0; j += std::max<uint64_t>(step, count / 17)) {
                Scenario sc;
                sc.check = chk;
                sc.seed = seed;
                Rng r(mix(mix(seed, j), fnv(5, chk.data(), chk.size())));
                if (!ck.gen(r, j, sc)) continue;
                printf("%s----\n", tostr(sc).c_str());
                --want;
            }
            return 0;
        }
        int nviol = 0;
        std::map<string, int> seen;
        uint64_t i = from;
        std::ofstream hlog;
        if (a.count("hashlog")) hlog.open(a["hashlog"]);
        for (; i < count && wallnow() - t0 < maxsec; i += step) {
            Scenario sc;
            sc.check = chk;
            sc.seed = seed;
            Rng r(mix(mix(seed, i), fnv(5, chk.data(), chk.size())));
            if (!ck.gen(r, i, sc)) continue;
            ST.scenarios++;
            for (auto& sl : sc.slots) for (auto& v : sl) ST.perop[v.op]++;
            g_hash = 0;
            Verdict v = ck.judge(sc);
            uint64_t h1 = g_hash;
            ST.states.insert(h1);
            if (hlog) hlog << i << " " << std::hex << h1 << std::dec << " " << v.viol << "\n";
            if (dbl || v.viol || i % 97 == from % 97) {  // same scenario twice: the event logs must be identical
                g_hash = 0;
                Verdict w = ck.judge(sc);
                ST.note["determinism-recheck"]++;
                if (g_hash != h1 || w.viol != v.viol) {
                    printf("{\"nondeterminism\":%llu,\"scenario\":\"%s\"}\n", (unsigned long long)i, jesc(tostr(sc)).c_str());
                    fflush(stdout);
                    continue;
                }
            }
            if (v.viol) {
                if (seen[v.key()]++ < 1) {
                    string fn = outp + "/viol-" + chk + "-" + std::to_string(i) + ".sim";
                    std::ofstream o(fn);
                    o << "# " << v.detail << "\n" << tostr(sc);
                    o.close();
                    printf("{\"violation\":\"%s\",\"index\":%llu,\"cls\":\"%s\",\"op\":\"%s\",\"where\":\"%s\",\"detail\":\"%s\"}\n", jesc(fn).c_str(), (unsigned long long)i, jesc(v.cls).c_str(), jesc(v.op).c_str(), jesc(v.where).c_str(), jesc(v.detail).c_str());
                    fflush(stdout);
                    if (++nviol >= maxviol) break;
                }
            }
        }
        printf("{\"stats\":1,\"scenarios\":%llu,\"runs\":%llu,\"calls\":%llu,\"steps\":%llu,\"switches\":%llu,\"oks\":%llu,\"badalloc\":%llu,\"excs\":%llu,\"infos\":%llu,\"interleavings\":%zu,\"histories\":%zu,\"wall\":%.3f,\"stopped\":%d", (unsigned long long)ST.scenarios, (unsigned long long)ST.runs, (unsigned long long)ST.calls, (unsigned long long)ST.steps, (unsigned long long)ST.switches, (unsigned long long)ST.oks, (unsigned long long)ST.badalloc, (unsigned long long)ST.excs, (unsigned long long)ST.infos, ST.sched.size(), ST.states.size(), wallnow() - t0, i < count ? 1 : 0);
        printf(",\"faults\":{");
        for (int k = 1; k < FK_N; ++k) printf("%s\"%s\":%llu", k > 1 ? "," : "", fkname(k), (unsigned long long)ST.fired[k]);
        printf("},\"notes\":{");
        bool f1 = true;
        for (auto& n : ST.note) { printf("%s\"%s\":%llu", f1 ? "" : ",", n.first.c_str(), (unsigned long long)n.second); f1 = false; }
        printf("},\"ops\":{");
        f1 = true;
        for (auto& n : ST.perop) { printf("%s\"%s\":%llu", f1 ? "" : ",", n.first.c_str(), (unsigned long long)n.second); f1 = false; }
        printf("}}\n");
    }
    catch (HarnessError& e) { fprintf(stderr, "harness error: %s\n", e.msg.c_str()); return 3; }
    return 0;
}
