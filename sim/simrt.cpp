// The simulator: a replacement __tsan_* runtime.  The library is compiled
// with -fsanitize=thread, so that every load, store, function entry and
// atomic of it calls in here, where one seeded scheduler decides which thread
// runs, which allocation fails, which stored value is corrupted, and where
// every access is checked against the storage the call may use.
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <exception>
#include <new>
#include <set>
#include <stdexcept>
#include <string>

#include "sim.hpp"

namespace sim {

// ------------------------------------------------------------ memory map
constexpr uintptr_t ARENA = 0x300000000000ull;
constexpr size_t OPREG = 96ull << 20;           // operands of one invocation
constexpr size_t INVREG = 1024ull << 20;        // operands + heap of one invocation
constexpr size_t SLOTREG = INVREG * MAXOP;
constexpr size_t ARENASZ = SLOTREG * MAXSLOT;
constexpr uintptr_t SHADOWB = 0x380000000000ull;
constexpr uintptr_t STACKB = 0x2f0000000000ull;
constexpr size_t STACKSZ = 8ull << 20;
#define SH(a) (*(uint8_t*)(SHADOWB + ((uintptr_t)(a)-ARENA)))

static std::vector<OpInfo> g_ops;
static std::map<std::string, int> g_opidx;
const std::vector<OpInfo>& ops() { return g_ops; }
const OpInfo* findop(const std::string& n)
{
    auto it = g_opidx.find(n);
    return it == g_opidx.end() ? nullptr : &g_ops[it->second];
}
static void reg(const OpInfo* o, int n)
{
    for (int i = 0; i < n; ++i) {
        if (g_opidx.count(o[i].name)) { fprintf(stderr, "duplicate op %s\n", o[i].name); exit(3); }
        g_opidx[o[i].name] = (int)g_ops.size();
        g_ops.push_back(o[i]);
    }
}
// Local variables without initializer: the libraries are compiled with -ftrivial-auto-var-init=pattern, which
// stores a constant (bytes 0xfe) of the library into floating-point locals, structures and arrays. Each run replaces that
// constant with garbage of its own, so a value that depends on an uninitialised local differs between environments.
struct JunkSite { uintptr_t at; int n; };
static std::vector<std::vector<JunkSite>> g_junk;   // per library
static std::vector<int> g_oplib;                    // library of each operation
static void find_junk(void* h, const std::string& path)
{
    g_junk.emplace_back();
    struct link_map* lm = nullptr;
    if (dlinfo(h, RTLD_DI_LINKMAP, &lm) || !lm) return;
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return;
    Elf64_Ehdr eh;
    std::vector<Elf64_Shdr> sh;
    if (fread(&eh, sizeof eh, 1, f) == 1 && eh.e_shentsize == sizeof(Elf64_Shdr)) {
        sh.resize(eh.e_shnum);
        if (fseek(f, (long)eh.e_shoff, SEEK_SET) || fread(sh.data(), sizeof(Elf64_Shdr), sh.size(), f) != sh.size()) sh.clear();
    }
    std::vector<char> names;
    if (!sh.empty() && eh.e_shstrndx < sh.size()) {
        names.resize(sh[eh.e_shstrndx].sh_size + 1);
        if (fseek(f, (long)sh[eh.e_shstrndx].sh_offset, SEEK_SET) || fread(names.data(), 1, names.size() - 1, f) != names.size() - 1) sh.clear();
    }
    fclose(f);
    for (auto& q : sh) {
        if (q.sh_name >= names.size() || strcmp(&names[q.sh_name], ".rodata")) continue;
        uintptr_t b = lm->l_addr + q.sh_addr;
        for (uintptr_t x = (b + 3) & ~3ull; x + 4 <= b + q.sh_size;) {
            if (*(uint32_t*)x != 0xfefefefeu) { x += 4; continue; }
            int n = (x & 7) == 0 && x + 8 <= b + q.sh_size && *(uint32_t*)(x + 4) == 0xfefefefeu ? 8 : 4;
            g_junk.back().push_back({x, n});
            uintptr_t pg = x & ~4095ull;
            mprotect((void*)pg, 4096, PROT_READ | PROT_WRITE);
            x += n;
        }
    }
}
void load_libs(const std::string& csv)
{
    size_t p = 0;
    while (p < csv.size()) {
        size_t q = csv.find(',', p);
        if (q == std::string::npos) q = csv.size();
        std::string l = csv.substr(p, q - p);
        p = q + 1;
        if (l.empty()) continue;
        void* h = dlopen(l.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
        auto f = (sim_catalogue_fn)dlsym(h, "sim_catalogue");
        if (!f) { fprintf(stderr, "no catalogue in %s\n", l.c_str()); exit(3); }
        f(reg);
        find_junk(h, l);
        g_oplib.resize(g_ops.size(), (int)g_junk.size() - 1);
    }
}
std::string demangle(const char* s)
{
    int st;
    char* d = abi::__cxa_demangle(s, 0, 0, &st);
    if (!d) return s;
    std::string r = d;
    free(d);
    return r;
}

// ------------------------------------------------------------ child state
struct Build {  // one invocation
    int slot, opi;
    const OpInv* spec;
    Rng gr{1};           // garbage
    uintptr_t opbase, opcur, heapbase, heapcur;
    CallFn fn = nullptr;
    void* obj = nullptr;
    DtorFn dtor = nullptr;
    uint32_t flags = 0;
    std::vector<Operand> oper;
    std::vector<std::vector<char>> baseline;
    std::vector<int> corrupted;
    Build* share = nullptr;
    InvRes* r = nullptr;
    int64_t live = 0;
    uint64_t livebytes = 0;
};
// call paths seen so far in one invocation (exact set, bounded)
struct Paths {
    uint64_t tab[512];
    uint32_t n = 0;
    void clear() { memset(tab, 0, sizeof tab); n = 0; }
    bool add(uint64_t h)
    {
        if (!h) h = 1;
        for (size_t i = h % 512;; i = (i + 1) % 512) {
            if (tab[i] == h) return false;
            if (!tab[i]) { if (n >= 384) return false; tab[i] = h; n++; return true; }
        }
    }
};
struct SimThread {
    int slot;
    uint64_t clock = 0, next = ~0ull;
    uint64_t budget = ~0ull;
    uintptr_t slo, shi;
    Build* inv = nullptr;
    size_t evi = 0;
    std::vector<Event> ev;     // timed events, sorted
    uint64_t alloc_once = ~0ull, alloc_from = ~0ull;
    uint64_t arith_at = ~0ull;
    uint64_t entropy_at = ~0ull;
    uint64_t nalloc = 0, narith = 0, nentropy = 0;
    // pending check of a forbidden store
    uintptr_t pend = 0;
    int pendn = 0;
    uint8_t pendold[64];
    void* pendpc = nullptr;
    uint64_t pendclock = 0;
    void* cs[256];
    int depth = 0;
    Paths apath, fpath;
    int futex = 0;
    bool finished = false, started = false;
    uintptr_t watch = 0;       // element to be corrupted later: was it read before?
    uint64_t rsel = 0;
    struct Team *team = nullptr, *team1 = nullptr;   // parallel region being executed; with one member
    bool atomicop = false;
    pthread_t th;
};
static __thread SimThread* cur = nullptr;       // non-null only inside a call
static __thread SimThread* self = nullptr;      // non-null in simulated threads
static SimThread* T[MAXSLOT];
static int nT = 0;
static ChildRes* CR = nullptr;
static char* DATA = nullptr;
static size_t DATASZ = 0;
static Env ENV;
static int mainfutex = 0;
static Build* B[MAXSLOT][MAXOP];
static const Scenario* SC = nullptr;
static uint64_t HB = 0;

static void fwait(int* f)
{
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void fpost(int* f)
{
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void symname(void* pc, char* out, size_t n)
{
    Dl_info di;
    if (pc && dladdr(pc, &di) && di.dli_sname) {
        std::string d = demangle(di.dli_sname);
        // drop template argument lists and parameters for brevity
        std::string s;
        int depth = 0;
        for (size_t i = 0; i < d.size(); ++i) {
            char c = d[i];
            if (c == '<') depth++;
            else if (c == '>') { if (depth) depth--; }
            else if (!depth) {
                if (c == '(') break;
                s += c;
            }
        }
        size_t sp = s.rfind(' ');
        if (sp != std::string::npos && sp + 1 < s.size()) s = s.substr(sp + 1);
        snprintf(out, n, "%s", s.c_str());
    }
    else snprintf(out, n, "?");
}
static void where(SimThread* t, void* pc, char* out, size_t n)
{
    SimThread* sv = cur;
    cur = nullptr;
    char b[160];
    symname(pc, b, sizeof b);
    int k = snprintf(out, n, "%s", b);
    int d = std::min(t->depth, 255);
    char last[160];
    snprintf(last, sizeof last, "%s", b);
    for (int i = d - 1, c = 0; i >= 1 && c < 4 && k > 0 && (size_t)k < n; --i) {
        symname(t->cs[i], b, sizeof b);   // cs[i]: return address in the caller of frame i
        if (!strncmp(b, "std::", 5) || !strcmp(b, last) || !strcmp(b, "?")) continue;
        snprintf(last, sizeof last, "%s", b);
        if (strstr(b, "kit::") || strstr(b, "operator()")) break;
        k += snprintf(out + k, n - k, " < %s", b);
        c++;
    }
    cur = sv;
}
static void addviol(SimThread* t, int kind, uintptr_t addr, uint64_t clock, void* pc)
{
    InvRes* r = t->inv->r;
    if (r->nviol >= 12) { r->nviol = 12; return; }
    Viol& v = r->viol[r->nviol];
    memset(&v, 0, sizeof v);
    v.kind = kind;
    v.elem = -1;
    v.clock = clock;
    strcpy(v.oper, "?");
    bool found = false;
    for (auto& o : t->inv->oper)
        if (addr >= (uintptr_t)o.base && addr < (uintptr_t)o.base + o.span) {
            strncpy(v.oper, o.name, 15);
            v.elem = (addr - (uintptr_t)o.base) / o.esize;
            found = true;
        }
    if (!found)
        for (auto& o : t->inv->oper)
            if (addr + 512 >= (uintptr_t)o.base && addr < (uintptr_t)o.base + o.span + 512) {
                snprintf(v.oper, 16, "near %s", o.name);
                v.elem = ((intptr_t)addr - (intptr_t)o.base) / (intptr_t)o.esize;
            }
    if (!found && addr >= t->inv->heapbase && addr < t->inv->heapbase + (INVREG - OPREG)) snprintf(v.oper, 16, "heap");
    where(t, pc, v.where, sizeof v.where);
    r->nviol++;
}
static Build* building;   // call being prepared (argument construction, workspace query)
static void child_exit(int kind, int sig, const char* w)
{
    SimThread* t = self;
    if (CR) {
        CR->crashkind = kind;
        CR->crashed = sig;
        if (t && t->inv) {
            CR->crashslot = t->slot;
            CR->crashop = t->inv->opi;
            t->inv->r->clock = t->clock;
        }
        else if (building) {
            CR->crashslot = building->slot;
            CR->crashop = building->opi;
        }
        snprintf(CR->crashwhere, sizeof CR->crashwhere, "%s%s", building ? "while the call is prepared (workspace query): " : "", w);
    }
    _exit(0);
}
// pick next runnable slot after s; -1 when none
static int next_runnable(int s)
{
    for (int k = 1; k <= nT; ++k) {
        int q = (s + k) % nT;
        if (q != s && !T[q]->finished) return q;
    }
    return -1;
}
static void resched(SimThread* t, int target)
{
    CR->nswitch++;
    HB = mix(HB, mix(t->clock * 8 + t->slot, target * 64 + (t->inv ? t->inv->opi : 63)));
    CR->schedhash = HB;
    fpost(&T[target]->futex);
    fwait(&t->futex);
}
static uint64_t rnd8(Rng& r, int mode)
{
    switch (mode) {
        case 0: return 0;
        case 2: return ~0ull;
        case 3: { double d = 2 * r.unit() - 1; float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return (uint64_t)u << 32 | u; }
        case 4: { float f = 1e30f * (float)(r.unit() - 0.5); uint32_t u; memcpy(&u, &f, 4); return (uint64_t)u << 32 | u; }
        case 5: return rnd8(r, 1 + (int)r.below(4));
        default: return r.next();
    }
}
// typed garbage for one real component
static void fillcomp(char* p, char kind, uint32_t csz, Rng& r, int mode)
{
    if (kind == 's' || kind == 'd' || kind == 'c' || kind == 'z') {
        double d;
        int m = mode == 5 ? (int)r.below(5) : mode;
        switch (m) {
            case 0: d = 0; break;
            case 2: d = r.chance(0.7) ? __builtin_nan("") : (r.chance(0.5) ? __builtin_inf() : -__builtin_inf()); break;
            case 3: d = 2 * r.unit() - 1; break;
            case 4: d = (csz == 4 ? 1e30 : 1e200) * (r.unit() - 0.5); break;
            default: { uint64_t u = r.next(); memcpy(p, &u, csz); return; }
        }
        if (csz == 4) { float f = (float)d; memcpy(p, &f, 4); }
        else memcpy(p, &d, 8);
    }
    else {
        uint64_t u = mode == 0 ? 0 : (mode == 3 ? r.below(7) : rnd8(r, mode));
        memcpy(p, &u, csz);
    }
}
static uint32_t compsize(const Operand& o) { return (o.kind == 'c' || o.kind == 'z') ? o.esize / 2 : o.esize; }

static void fill_region(Build* b, bool norefonly, uint64_t seed, int gm, int nm)
{
    Rng r(seed);
    for (auto& o : b->oper) {
        if (!o.owned) continue;
        uint32_t cs = compsize(o);
        for (size_t k = 0; k + cs <= o.span; k += cs) {
            uint8_t c = SH(o.base + k);
            if (c == C_NOREF) fillcomp(o.base + k, o.kind, cs, r, nm);
            else if (!norefonly && (c == C_OUT || c == C_WORK)) fillcomp(o.base + k, o.kind, cs, r, gm);
            else r.next();
        }
    }
}
static void snapshot_noref(Build* b)
{
    for (size_t i = 0; i < b->oper.size(); ++i) {
        auto& o = b->oper[i];
        for (size_t k = 0; k < o.span; ++k)
            if (SH(o.base + k) == C_NOREF) b->baseline[i][k] = o.base[k];
    }
}

// value codes of corruption
static double corruptval(uint64_t v, double old, bool f32)
{
    switch (v % 16) {
        case 0: return __builtin_nan("");
        case 1: return __builtin_inf();
        case 2: return -__builtin_inf();
        case 3: return f32 ? 3e38 : 1.5e308;
        case 4: return f32 ? -3e38 : -1.5e308;
        case 5: return f32 ? 1e-44 : 5e-324;
        case 6: return 0;
        case 7: return -old;
        case 8: return old * (f32 ? 1e20 : 1e150);
        case 9: return old * (f32 ? 1e-20 : 1e-150);
        case 10: return old * 1.37 + 0.2;   // perturbation used as reference
        case 11: return f32 ? 1e-38 : 2.3e-308;
        case 12: return -old * 0.73 - 0.1;   // second perturbation
        default: return old + 1;
    }
}
static void do_corrupt(Build* b, const Event& e)
{
    if (e.a < 0 || (size_t)e.a >= b->oper.size()) return;
    auto& o = b->oper[e.a];
    uint32_t cs = compsize(o);
    size_t off = (size_t)e.b * cs;
    if (off + cs > o.span) return;
    char* p = o.base + off;
    if (e.v >= 16 && e.v < 100) { // bit flip: bit index v-16
        int bit = (int)(e.v - 16) % (int)(cs * 8);
        p[bit / 8] ^= (char)(1 << (bit % 8));
    }
    else if (cs == 4) { float f; memcpy(&f, p, 4); f = (float)corruptval(e.v, f, true); memcpy(p, &f, 4); }
    else { double d; memcpy(&d, p, 8); d = corruptval(e.v, d, false); memcpy(p, &d, 8); }
    memcpy(b->baseline[e.a].data() + off, p, cs);
}

static void check_pending(SimThread* t)
{
    uintptr_t a = t->pend;
    t->pend = 0;
    if (memcmp((void*)a, t->pendold, t->pendn) != 0) addviol(t, SH(a) == C_IN ? V_WRITE_IN : V_WRITE_NOREF, a, t->pendclock, t->pendpc);
}

static uint64_t team_next(SimThread* t);
static void team_preempt(SimThread* t);
static void race_access(SimThread* t, uintptr_t a, size_t n, bool w, void* pc);
static void race_forget(uintptr_t a, size_t n);
static void settle(SimThread* t)
{
    t->next = t->evi < t->ev.size() ? std::min(t->ev[t->evi].at, t->budget) : t->budget;
    if (t->team) t->next = std::min(t->next, team_next(t));
}
__attribute__((noinline)) static void slow_event(SimThread* t)
{
    while (t->clock >= t->next) {
        if (t->team && t->clock >= team_next(t) && t->clock < t->budget) { team_preempt(t); settle(t); continue; }
        if (t->clock >= t->budget) {
            char w[256];
            where(t, __builtin_return_address(0), w, sizeof w);
            // report the stack instead of the hook
            int d = std::min(t->depth, 255);
            char out[256];
            int k = 0;
            out[0] = 0;
            cur = nullptr;
            char b[160], last[160] = "";
            for (int i = d - 1, c = 0; i >= 1 && c < 4 && (size_t)k < sizeof out; --i) {
                symname(t->cs[i], b, sizeof b);
                if (!strncmp(b, "std::", 5) || !strcmp(b, last) || !strcmp(b, "?")) continue;
                snprintf(last, sizeof last, "%s", b);
                if (strstr(b, "kit::") || strstr(b, "operator()")) break;
                k += snprintf(out + k, sizeof out - k, "%s%s", k ? " < " : "", b);
                c++;
            }
            child_exit(V_HANG, 0, out);
        }
        if (t->evi >= t->ev.size() || t->ev[t->evi].at > t->clock) { settle(t); continue; }
        Event e = t->ev[t->evi++];
        settle(t);
        t->inv->r->fired[e.kind]++;
        switch (e.kind) {
            case FK_SWITCH: {
                int q = (int)e.a;
                if (q < 0 || q >= nT || q == t->slot || T[q]->finished) { q = next_runnable(t->slot); }
                if (q >= 0) {
                    SimThread* sv = cur;
                    resched(t, q);
                    cur = sv;
                }
                else t->inv->r->fired[e.kind]--;
                break;
            }
            case FK_CORRUPT: do_corrupt(t->inv, e); break;
            case FK_MUTATE:
                fill_region(t->inv, true, e.v, 5, 1 + (int)(e.v % 5));
                snapshot_noref(t->inv);
                break;
        }
    }
}

static inline bool incls(uint8_t c, bool w)
{
    switch (c) {
        case C_OUT: case C_INOUT: case C_WORK: case C_SCRATCH: case C_HEAP: case C_CLOS: return true;
        case C_IN: case C_NOREF: return !w;
        default: return false;
    }
}
static bool st_unheld(SimThread* t, uintptr_t a);
__attribute__((noinline)) static void bad_access(SimThread* t, uintptr_t a, size_t n, bool w, uint8_t c, void* pc)
{
    if (c == C_NONE) addviol(t, st_unheld(t, a) ? V_ST_ACQ : w ? V_STRAY_W : V_STRAY_R, a, t->clock, pc);
    else if (c == C_FREED) addviol(t, V_FREED, a, t->clock, pc);
    else if (w) {
        // forbidden store: judged by whether the value changes
        if (t->pend) check_pending(t);
        t->pend = a;
        t->pendn = (int)std::min<size_t>(n, 64);
        memcpy(t->pendold, (void*)a, t->pendn);
        t->pendpc = pc;
        t->pendclock = t->clock;
    }
}
__attribute__((noinline)) static void foreign(SimThread* t, uintptr_t a, bool w)
{
    if (!w) return;
    // stack of the caller's frames and TLS of this thread are not shared
    InvRes* r = t->inv->r;
    r->totfw++;
    if (r->nfw < 512) { r->fw[r->nfw].clock = t->clock; r->fw[r->nfw].addr = a; r->nfw++; }
    else { // reservoir
        uint64_t k = mix(t->clock, a) % r->totfw;
        if (k < 512) { r->fw[k].clock = t->clock; r->fw[k].addr = a; }
    }
}
static inline void access(void* p, size_t n, bool w, void* pc)
{
    SimThread* t = cur;
    if (!t) return;
    if (__builtin_expect(t->pend != 0, 0)) check_pending(t);
    if (__builtin_expect(++t->clock >= t->next, 0)) slow_event(t);
    uintptr_t a = (uintptr_t)p;
    if (__builtin_expect(t->team != nullptr, 0) && !t->atomicop) race_access(t, a, n, w, pc);
    if (a - t->slo < t->shi - t->slo) return;
    if (a - ARENA < ARENASZ) {
        if (__builtin_expect(t->watch - a < n, 0)) {
            if (t->evi == 0) t->inv->r->preread = 1;
            t->watch = 0;
        }
        uint8_t c0 = SH(a), c1 = SH(a + n - 1);
        if (__builtin_expect(!incls(c0, w), 0)) bad_access(t, a, n, w, c0, pc);
        else if (__builtin_expect(!incls(c1, w), 0)) bad_access(t, a + n - 1, 1, w, c1, pc);
        size_t reg = (a - ARENA) / INVREG;
        if (__builtin_expect(reg != (size_t)(t->slot * MAXOP + t->inv->opi), 0) && !((c0 == C_IN || c0 == C_NOREF) && !w))   // shared inputs
            addviol(t, V_OTHER_SLOT, a, t->clock, pc);
        return;
    }
    foreign(t, a, w);
}
static void atomic_access(void* p, size_t n, bool w, void* pc)
{
    SimThread* t = cur;
    if (t) t->atomicop = true;
    access(p, n, w, pc);
    if (t) t->atomicop = false;
}
static void range(void* p, size_t n, bool w, void* pc)
{
    if (!cur || !n) return;
    char* q = (char*)p;
    while (n) {
        size_t k = std::min<size_t>(n, 8);
        access(q, k, w, pc);
        q += k;
        n -= k;
    }
}

static uint64_t path(SimThread* t, int frames)
{
    int d = std::min(t->depth, 256);
    uint64_t h = 1469598103934665603ull;
    for (int i = frames && d > frames ? d - frames : 0; i < d; ++i) h = (h ^ (uint64_t)t->cs[i]) * 1099511628211ull;
    return h;
}
// ------------------------------------------------------------ heap
static void* heap_alloc(SimThread* t, size_t n, size_t align)
{
    Build* b = t->inv;
    t->nalloc++;
    uint64_t k = t->nalloc - 1;
    if (b->r->nasite < 128 && t->apath.add(path(t, 0))) b->r->asite[b->r->nasite++] = (uint32_t)k;
    if (k == t->alloc_once || k >= t->alloc_from) {
        b->r->fired[FK_ALLOC]++;
        b->r->nfail++;
        return nullptr;
    }
    if (align < 16) align = 16;
    uintptr_t a = b->heapcur + 64 + 16 * ((mix(ENV.place, k) >> 7) % 5);
    a = (a + align - 1) / align * align;
    size_t m = n ? n : 1;
    if (a + m + 512 > b->heapbase + (INVREG - OPREG)) { b->r->nfail++; return nullptr; }  // simulated memory exhausted
    memset(&SH(a), C_HEAP, m);
    if (t->team) race_forget(a, m);
    *(size_t*)(a - 16) = m;
    Rng r(mix(ENV.garbage, k * 977 + 5));
    if (ENV.gmode == 0) memset((void*)a, 0, m);
    else if (ENV.gmode == 2) memset((void*)a, 0xff, m);
    else
        for (size_t i = 0; i < m; i += 8) {
            uint64_t v = rnd8(r, ENV.gmode);
            memcpy((void*)(a + i), &v, std::min<size_t>(8, m - i));
        }
    b->heapcur = a + m;
    b->live++;
    b->livebytes += m;
    b->r->nalloc = (uint32_t)t->nalloc;
    return (void*)a;
}
static bool inarena(void* p) { return (uintptr_t)p - ARENA < ARENASZ; }
static void heap_free(void* p)
{
    uintptr_t a = (uintptr_t)p;
    size_t reg = (a - ARENA) / INVREG;
    Build* b = B[reg / MAXOP][reg % MAXOP];
    SimThread* t = self;
    if (!b || SH(a) != C_HEAP) {
        if (t && t->inv) {
            SimThread* sv = cur;
            addviol(t, V_BADFREE, a, t->clock, __builtin_return_address(0));
            cur = sv;
        }
        return;
    }
    size_t m = *(size_t*)(a - 16);
    memset(&SH(a), C_FREED, m);
    memset((void*)a, 0xdd, m);
    b->live--;
    b->livebytes -= m;
}
}  // namespace sim
using namespace sim;

// ---------------------------------------------------------------- operator new/delete
static void* xnew(size_t n, size_t al, bool nothrow)
{
    SimThread* t = cur;
    if (t) {
        void* p = heap_alloc(t, n, al);
        if (!p && !nothrow) throw std::bad_alloc();
        return p;
    }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void xdel(void* p)
{
    if (!p) return;
    if (inarena(p)) heap_free(p);
    else free(p);
}
void* operator new(size_t n) { return xnew(n, 16, false); }
void* operator new[](size_t n) { return xnew(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return xnew(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return xnew(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return xnew(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return xnew(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return xnew(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return xnew(n, (size_t)a, true); }
void operator delete(void* p) noexcept { xdel(p); }
void operator delete[](void* p) noexcept { xdel(p); }
void operator delete(void* p, size_t) noexcept { xdel(p); }
void operator delete[](void* p, size_t) noexcept { xdel(p); }
void operator delete(void* p, std::align_val_t) noexcept { xdel(p); }
void operator delete[](void* p, std::align_val_t) noexcept { xdel(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { xdel(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { xdel(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { xdel(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { xdel(p); }

#define PC __builtin_return_address(0)
extern "C" {
// malloc family and mem* functions of the instrumented objects (ld --wrap)
void* __wrap_malloc(size_t n) { if (cur) return heap_alloc(cur, n, 16); return malloc(n); }
void* __wrap_calloc(size_t a, size_t b)
{
    if (cur) { void* p = heap_alloc(cur, a * b, 16); if (p) memset(p, 0, a * b); return p; }
    return calloc(a, b);
}
void __wrap_free(void* p) { xdel(p); }
void* __wrap_realloc(void* p, size_t n)
{
    if (cur) {
        void* q = heap_alloc(cur, n, 16);
        if (q && p) { size_t m = inarena(p) ? *(size_t*)((char*)p - 16) : n; memcpy(q, p, std::min(m, n)); xdel(p); }
        return q;
    }
    return realloc(p, n);
}
void* __wrap_aligned_alloc(size_t al, size_t n) { if (cur) return heap_alloc(cur, n, al); return aligned_alloc(al, n); }
int __wrap_posix_memalign(void** p, size_t al, size_t n)
{
    if (cur) { *p = heap_alloc(cur, n, al); return *p ? 0 : ENOMEM; }
    return posix_memalign(p, al, n);
}
void* __wrap_memcpy(void* d, const void* s, size_t n) { range((void*)s, n, false, PC); range(d, n, true, PC); return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { range((void*)s, n, false, PC); range(d, n, true, PC); return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { range(d, n, true, PC); return memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { range((void*)a, n, false, PC); range((void*)b, n, false, PC); return memcmp(a, b, n); }

// ---------------------------------------------------------------- __tsan_* hooks
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    SimThread* t = cur;
    if (!t) return;
    if (t->depth < 256) t->cs[t->depth] = pc;
    t->depth++;
    if (t->pend) check_pending(t);
    if (++t->clock >= t->next) slow_event(t);
    InvRes* r = t->inv->r;
    if (t->depth <= 6) {
        if (r->nentries < 64) r->entries[r->nentries++] = t->clock;
        else { uint64_t k = mix(t->clock, 3) % (r->nentries++); if (k < 64) r->entries[k] = t->clock; }
    }
}
void __tsan_func_exit() { SimThread* t = cur; if (t && t->depth > 0) t->depth--; }
#define RW(N) \
    void __tsan_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { range(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { range(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int) { atomic_access((void*)a, sizeof(T), false, PC); return *a; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int) { atomic_access((void*)a, sizeof(T), true, PC); *a = v; } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { atomic_access((void*)a, sizeof(T), true, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { atomic_access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { atomic_access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { atomic_access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { atomic_access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { atomic_access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { atomic_access((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atomic_access((void*)a, sizeof(T), true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atomic_access((void*)a, sizeof(T), true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atomic_access((void*)a, sizeof(T), true, PC); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- locks the library may use
static void sim_block_until(bool (*ready)(void*), void* a)
{
    SimThread* t = self;
    int spins = 0;
    while (!ready(a)) {
        int q = t ? next_runnable(t->slot) : -1;
        if (q < 0 || ++spins > 10000) child_exit(V_DEADLOCK, 0, "lock");
        SimThread* sv = cur;
        cur = nullptr;
        resched(t, q);
        cur = sv;
    }
}
int __cxa_guard_acquire(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    if (cur) access(g, 8, true, PC);
    if (b[0]) return 0;
    if (self) sim_block_until([](void* p) { uint8_t* b = (uint8_t*)p; return b[0] || !b[1]; }, g);
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g) { uint8_t* b = (uint8_t*)g; b[1] = 0; b[0] = 1; if (cur) access(g, 8, true, PC); }
void __cxa_guard_abort(uint64_t* g) { ((uint8_t*)g)[1] = 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!self) return pthread_mutex_lock(m);
    if (cur) access(m, 8, true, PC);
    sim_block_until([](void* p) { return pthread_mutex_trylock((pthread_mutex_t*)p) == 0; }, m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = pthread_mutex_unlock(m);
    if (cur) access(m, 8, true, PC);
    return r;
}

// ---------------------------------------------------------------- clocks, entropy
static uint64_t simnow(SimThread* t) { return ENV.time * 1000003ull + t->clock * (1 + ENV.time % 7); }
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (cur) { uint64_t n = simnow(cur); ts->tv_sec = (time_t)(n / 1000000000 + ENV.time % 1000000007); ts->tv_nsec = (long)(n % 1000000000); return 0; }
    return (int)syscall(SYS_clock_gettime, c, ts);
}
time_t time(time_t* p)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
clock_t clock(void) { return cur ? (clock_t)simnow(cur) : 0; }
int __wrap_rand() { return cur ? (int)(mix(ENV.entropy, ++cur->rsel) & 0x7fffffff) : rand(); }
long __wrap_random() { return cur ? (long)(mix(ENV.entropy, ++cur->rsel) & 0x7fffffff) : random(); }
char* __wrap_getenv(const char* n)
{
    static char buf[16];
    if (cur) { uint64_t m = mix(ENV.entropy, strlen(n)); if (m % 3 == 0) return nullptr; snprintf(buf, sizeof buf, "%d", (int)(m % 97)); return buf; }
    return getenv(n);
}
// std::random_device
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const std::string&)
{
    SimThread* t = cur;
    if (!t) return;
    t->nentropy++;
    if (t->nentropy - 1 >= t->entropy_at) { t->inv->r->fired[FK_ENTROPY]++; throw std::runtime_error("random_device: simulated entropy source failure"); }
}
void _ZNSt13random_device7_M_finiEv(void*) {}
unsigned _ZNSt13random_device9_M_getvalEv(void*)
{
    SimThread* t = cur;
    if (!t) return 4;
    t->nentropy++;
    t->inv->r->nentropy++;
    if (t->nentropy - 1 >= t->entropy_at) { t->inv->r->fired[FK_ENTROPY]++; throw std::runtime_error("random_device: simulated entropy source failure"); }
    if (ENV.entropy % 5 == 0) return 0;
    if (ENV.entropy % 5 == 1) return ~0u;
    return (unsigned)mix(ENV.entropy, t->nentropy);
}

// ---------------------------------------------------------------- build interface
void* sim_operand(Build* b, const char* name, char kind, uint32_t esize, size_t nelem, int cls)
{
    Operand o;
    memset(&o, 0, sizeof o);
    strncpy(o.name, name, 15);
    o.kind = kind;
    o.cls = (uint8_t)cls;
    o.owned = 1;
    o.esize = esize;
    o.span = esize * nelem;
    size_t idx = b->oper.size();
    if (b->share && idx < b->share->oper.size()) {
        auto& s = b->share->oper[idx];
        bool allin = s.cls == C_IN && cls == C_IN && s.span == o.span && !strcmp(s.name, o.name);
        if (allin) {
            for (size_t k = 0; k < s.span && allin; ++k) { uint8_t c = SH(s.base + k); if (c != C_IN && c != C_NOREF) allin = false; }
        }
        if (allin) { o.owned = 0; o.base = s.base; b->oper.push_back(o); return o.base; }
    }
    uintptr_t a = b->opcur + 512 + 16 * (mix(ENV.place, idx * 31 + 7) % 9);
    a = (a + 15) & ~15ull;
    o.base = (char*)a;
    b->opcur = a + o.span;
    if (b->opcur + 1024 > b->opbase + OPREG) { fprintf(stderr, "operand region exhausted (%s)\n", b->spec->op.c_str()); _exit(9); }
    if (o.span) memset(&SH(a), cls, o.span);
    b->oper.push_back(o);
    return o.base;
}
void sim_setcls(Build* b, void* p, size_t n, int cls)
{
    if (!n) return;
    for (auto& o : b->oper)
        if (!o.owned && (char*)p >= o.base && (char*)p < o.base + o.span) return;
    memset(&SH(p), cls, n);
}
void sim_operand_flag(Build* b, int f) { if (!b->oper.empty()) b->oper.back().nanweak = (uint8_t)f; }
void* sim_closure(Build* b, size_t n)
{
    uintptr_t a = (b->opcur + 512 + 63) & ~63ull;
    b->opcur = a + n;
    memset(&SH(a), C_CLOS, n);
    return (void*)a;
}
void sim_call(Build* b, CallFn f, void* o, DtorFn d) { b->fn = f; b->obj = o; b->dtor = d; }
void sim_flags(Build* b, uint32_t f) { b->flags |= f; }
void sim_probe(int id) { if (CR && id >= 0 && id < 64) CR->probes[id]++; }
int sim_fault_arith()
{
    SimThread* t = cur;
    if (!t) return 0;
    uint64_t k = t->narith++;
    InvRes* r = t->inv->r;
    if (r->nfsite < 128 && t->fpath.add(path(t, 5))) r->fsite[r->nfsite++] = (uint32_t)k;
    if (k == t->arith_at) { t->inv->r->fired[FK_ARITH]++; return 1; }
    return 0;
}
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn)
{
    char w[256];
    const char* bn = strrchr(f, '/');
    snprintf(w, sizeof w, "assert(%s) in %s", e, bn ? bn + 1 : f);
    if (self || building) child_exit(V_ABORT, SIGABRT, w);
    fprintf(stderr, "%s\n", w);
    abort();
}
}  // extern "C"

#include "proc_rt.hpp"

namespace sim {
// thrown by the fault-injecting number type: recognised by name to keep the
// boundary free of shared C++ types
static void classify_current(InvRes* r)
{
    try { throw; }
    catch (const std::bad_alloc& e) { r->status = ST_BADALLOC; }
    catch (const std::domain_error& e) { r->status = ST_DOMAIN; snprintf(r->what, sizeof r->what, "%s", e.what()); }
    catch (const std::runtime_error& e) { r->status = ST_RUNTIME; snprintf(r->what, sizeof r->what, "%s", e.what()); }
    catch (const std::exception& e)
    {
        snprintf(r->what, sizeof r->what, "%s", e.what());
        r->status = strncmp(e.what(), "SIMFAULT", 8) == 0 ? ST_SIMFAULT : ST_EXC;
    }
    catch (...) { r->status = ST_UNKNOWN; }
}
__attribute__((noinline)) static void dirty_stack(uint64_t seed, int mode)
{
    constexpr size_t N = 192 * 1024;
    volatile uint64_t buf[N / 8];
    Rng r(seed);
    uint64_t v = rnd8(r, mode), w = rnd8(r, mode), x = rnd8(r, mode), y = rnd8(r, mode);
    for (size_t i = 0; i < N / 8; i += 4) { buf[i] = v; buf[i + 1] = w; buf[i + 2] = x; buf[i + 3] = y; }
}
__attribute__((noinline)) static void guarded_call(SimThread* t, Build* b)
{
    InvRes* r = b->r;
    try {
        cur = t;
        int64_t v = b->fn(b->obj);
        if (t->pend) check_pending(t);
        cur = nullptr;
        r->ret = v;
        r->status = ST_OK;
    }
    catch (...) {
        // the exception object may own memory of the simulated heap
        if (t->pend) check_pending(t);
        cur = nullptr;
        classify_current(r);
    }
}
__attribute__((noinline)) static void place_call(SimThread* t, Build* b)
{
    size_t off = 16 * (mix(ENV.place, 99) % 61);
    volatile char* p = (volatile char*)__builtin_alloca(off + 16);
    p[0] = 0;
    dirty_stack(mix(ENV.garbage, 4242 + b->opi), ENV.gmode);
    guarded_call(t, b);
}
static void starpu_begin(SimThread*, const OpInv&);
static void team_begin(SimThread*, const OpInv&);
static void team_end(SimThread*);
static void starpu_end(SimThread*);
static void run_inv(SimThread* t, Build* b)
{
    InvRes* r = b->r;
    t->inv = b;
    t->clock = 0;
    t->depth = 0;
    t->pend = 0;
    t->nalloc = t->narith = t->nentropy = 0;
    t->apath.clear();
    t->fpath.clear();
    t->rsel = 0;
    t->alloc_once = t->alloc_from = t->arith_at = t->entropy_at = ~0ull;
    t->ev.clear();
    t->evi = 0;
    for (auto& e : b->spec->ev) {
        if (e.kind == FK_ALLOC) (e.a ? t->alloc_from : t->alloc_once) = e.at;
        else if (e.kind == FK_ARITH) t->arith_at = e.at;
        else if (e.kind == FK_ENTROPY) t->entropy_at = e.at;
        else if (e.kind == FK_TASK || e.kind == FK_TEAM) {}
        else t->ev.push_back(e);
    }
    std::stable_sort(t->ev.begin(), t->ev.end(), [](const Event& x, const Event& y) { return x.at < y.at; });
    t->next = t->ev.empty() ? t->budget : std::min(t->ev[0].at, t->budget);
    t->watch = 0;
    if (t->ev.size() == 1 && t->ev[0].kind == FK_CORRUPT && t->ev[0].at && t->ev[0].a >= 0 && (size_t)t->ev[0].a < t->inv->oper.size()) {
        auto& o = t->inv->oper[t->ev[0].a];
        t->watch = (uintptr_t)o.base + (size_t)t->ev[0].b * compsize(o);
    }
    r->started = 1;
    // events at clock 0 happen before the call
    if (t->next == 0) slow_event(t);
    const bool st = findop(b->spec->op)->attr & A_STARPU;
    if (st) starpu_begin(t, *b->spec);
    team_begin(t, *b->spec);
    fenv_t fe;
    std::fegetenv(&fe);
    ProcState ps;
    if (ENV.proc) { proc_setup(ENV.proc); proc_take(ps); }
    place_call(t, b);
    if (ENV.proc) {
        ProcState pe;
        proc_take(pe);
        std::fesetenv(&fe);
        proc_compare(ps, pe);
    }
    std::fesetenv(&fe);
    team_end(t);
    if (st) starpu_end(t);
    r->clock = t->clock;
    r->narith = (uint32_t)t->narith;
    t->arith_at = ~0ull;
    r->nalloc = (uint32_t)t->nalloc;
    r->live = b->live;
    r->livebytes = b->livebytes;
    if (r->status == ST_OK && b->dtor) { b->dtor(b->obj); b->dtor = nullptr; }
    // const operands and surroundings at the end
    for (size_t i = 0; i < b->oper.size(); ++i) {
        auto& o = b->oper[i];
        bool done = false;
        for (size_t k = 0; k < o.span && !done; ++k) {
            uint8_t c = SH(o.base + k);
            if ((c == C_IN || c == C_NOREF) && o.base[k] != b->baseline[i][k]) {
                addviol(t, c == C_IN ? V_FINAL_IN : V_FINAL_NOREF, (uintptr_t)o.base + k, t->clock, nullptr);
                done = true;
            }
        }
    }
    // store images
    r->noper = (uint32_t)std::min<size_t>(40, b->oper.size());
    for (size_t i = 0; i < r->noper; ++i) {
        auto& o = b->oper[i];
        r->oper[i].o = o;
        if (CR->used + 2 * o.span + 64 > DATASZ) { fprintf(stderr, "result buffer full\n"); _exit(9); }
        r->oper[i].img = CR->used;
        memcpy(DATA + CR->used, o.base, o.span);
        CR->used += (o.span + 15) & ~15ull;
        r->oper[i].cls = CR->used;
        if (o.span) memcpy(DATA + CR->used, &SH(o.base), o.span);
        CR->used += (o.span + 15) & ~15ull;
    }
    t->inv = nullptr;
}
static void* thread_main(void* a)
{
    SimThread* t = (SimThread*)a;
    self = t;
    static char altstk[MAXSLOT][64 * 1024];   // stack overflow is reported from here
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = altstk[t->slot];
    ss.ss_size = sizeof altstk[0];
    sigaltstack(&ss, nullptr);
    fwait(&t->futex);
    t->started = true;
    for (size_t k = 0; k < SC->slots[t->slot].size(); ++k)
        if (B[t->slot][k]) run_inv(t, B[t->slot][k]);
    t->finished = true;
    int q = next_runnable(t->slot);
    if (q >= 0) { HB = mix(HB, 1000 + t->slot * 8 + q); CR->schedhash = HB; fpost(&T[q]->futex); }
    else fpost(&mainfutex);
    return nullptr;
}
static void onsig(int s)
{
    char w[256] = "";
    SimThread* t = self;
    if (t) {
        cur = nullptr;
        int k = 0;
        int d = std::min(t->depth, 255);
        char b[160], last[160] = "";
        for (int i = d - 1, c = 0; i >= 1 && c < 4 && (size_t)k < sizeof w; --i) {
            symname(t->cs[i], b, sizeof b);
            if (!strncmp(b, "std::", 5) || !strcmp(b, last) || !strcmp(b, "?")) continue;
            snprintf(last, sizeof last, "%s", b);
            if (strstr(b, "kit::") || strstr(b, "operator()")) break;
            k += snprintf(w + k, sizeof w - k, "%s%s", k ? " < " : "", b);
            c++;
        }
    }
    if (s == SIGPROF) child_exit(V_TIMEOUT, s, w);
    child_exit(V_SIGNAL, s, w);
}
static void onterm()
{
    char w[256] = "std::terminate";
    SimThread* t = self;
    cur = nullptr;
    if (t && t->inv) {
        std::exception_ptr ep = std::current_exception();
        if (ep) {
            try { std::rethrow_exception(ep); }
            catch (const std::bad_alloc&) { snprintf(w, sizeof w, "std::terminate after bad_alloc"); }
            catch (const std::exception& e) { snprintf(w, sizeof w, "std::terminate after exception: %.100s", e.what()); }
            catch (...) {}
        }
    }
    child_exit(V_TERMINATE, SIGABRT, w);
}
static char* g_shared = nullptr;
static constexpr size_t SHAREDSZ = 512ull << 20;

void sim_init()
{
    void* a = mmap((void*)ARENA, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* s = mmap((void*)SHADOWB, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* k = mmap((void*)STACKB, STACKSZ * MAXSLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a == MAP_FAILED || s == MAP_FAILED || k == MAP_FAILED) { perror("mmap"); exit(3); }
    madvise(a, ARENASZ, MADV_NOHUGEPAGE);
    madvise(s, ARENASZ, MADV_NOHUGEPAGE);
    madvise(k, STACKSZ * MAXSLOT, MADV_NOHUGEPAGE);
    g_shared = (char*)mmap(nullptr, SHAREDSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_shared == MAP_FAILED) { perror("mmap shared"); exit(3); }
}

static void child_main(const Scenario& sc, const Env& env, uint64_t budget)
{
    SC = &sc;
    ENV = env;
    CR = (ChildRes*)g_shared;
    DATA = g_shared + sizeof(ChildRes);
    DATASZ = SHAREDSZ - sizeof(ChildRes);
    memset(CR, 0, sizeof(ChildRes));
    nT = (int)sc.slots.size();
    int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1);
    if (!getenv("SIM_STDERR")) dup2(devnull, 2);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onsig;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
    std::set_terminate(onterm);
    for (int s = 0; s < nT; ++s)
        for (size_t k = 0; k < sc.slots[s].size(); ++k) {
            const OpInv& v = sc.slots[s][k];
            if (v.op.empty()) { B[s][k] = nullptr; continue; }
            const OpInfo* oi = findop(v.op);
            Build* b = new Build;
            B[s][k] = b;
            b->slot = s;
            b->opi = (int)k;
            b->spec = &v;
            b->opbase = ARENA + s * SLOTREG + k * INVREG;
            b->opcur = b->opbase + 4096;
            b->heapbase = b->opbase + OPREG;
            b->heapcur = b->heapbase + 4096 + 16 * (mix(env.place, 5) % 17);
            b->r = &CR->inv[s][k];
            if (v.share >= 0 && v.share < s && k < sc.slots[v.share].size()) b->share = B[v.share][k];
            BuildParams bp{v.seed, v.size, v.variant};
            building = b;
            oi->f(b, &bp);
            building = nullptr;
            b->r->flags = b->flags;
        }
    for (int s = 0; s < nT; ++s)
        for (size_t k = 0; k < sc.slots[s].size(); ++k) {
            Build* b = B[s][k];
            if (!b) continue;
            fill_region(b, false, mix(env.garbage, s * 100 + k + 17), env.omode, env.nmode);
            for (auto& o : b->oper) b->baseline.emplace_back(o.base, o.base + o.span);
            if (b->flags & F_REJECT)  // a rejected call may not write anything
                for (auto& o : b->oper)
                    for (size_t q = 0; o.owned && q < o.span; ++q) { uint8_t c = SH(o.base + q); if (c == C_OUT || c == C_INOUT || c == C_WORK || c == C_SCRATCH) SH(o.base + q) = C_IN; }
        }
    for (int s = 0; s < nT; ++s) {
        SimThread* t = new SimThread;
        T[s] = t;
        t->slot = s;
        t->slo = STACKB + s * STACKSZ;
        t->shi = t->slo + STACKSZ;
        t->budget = budget ? budget : 400000000ull;
        mprotect((void*)t->slo, 4096, PROT_NONE);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void*)(t->slo + 4096), STACKSZ - 8192);
        if (pthread_create(&t->th, &at, thread_main, t)) { perror("pthread_create"); _exit(9); }
    }
    fpost(&T[sc.first < nT ? sc.first : 0]->futex);
    fwait(&mainfutex);
    CR->finished = 1;
    _exit(0);
}

static void junk_locals(const Scenario& sc, const Env& env)
{
    std::set<int> libs;
    for (auto& sl : sc.slots) for (auto& v : sl) if (!v.op.empty()) libs.insert(g_oplib[g_opidx[v.op]]);
    for (int l : libs) {
        Rng r(mix(env.garbage, 7171));
        for (auto& j : g_junk[l]) {
            uint64_t v = rnd8(r, env.gmode);
            memcpy((void*)j.at, &v, (size_t)j.n);
        }
    }
}

bool execute(const Scenario& sc, const Env& env, std::vector<char>& store, uint64_t budget)
{
    for (auto& sl : sc.slots) for (auto& v : sl) if (!v.op.empty() && !findop(v.op)) { fprintf(stderr, "unknown op %s\n", v.op.c_str()); return false; }
    ((ChildRes*)g_shared)->used = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); return false; }
    if (p == 0) {
        struct itimerval tv = {{0, 0}, {90, 0}};   // CPU time; only a loop without any instrumented access gets here
        setitimer(ITIMER_PROF, &tv, nullptr);
        proc_streams();
        junk_locals(sc, env);
        child_main(sc, env, budget);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    ChildRes* c = (ChildRes*)g_shared;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        if (WIFSIGNALED(st)) { // e.g. stack overflow on the alternate stack, SIGKILL
            c->crashed = WTERMSIG(st);
            c->crashkind = V_SIGNAL;
        }
        else { fprintf(stderr, "simulator error in child (status %d) op %s\n", st, sc.slots[0][0].op.c_str()); return false; }
    }
    store.assign(g_shared, g_shared + sizeof(ChildRes) + c->used);
    return true;
}
}  // namespace sim
#include "team_rt.hpp"
#include "starpu_rt.hpp"
