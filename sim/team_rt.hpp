// Simulated OpenMP team: the members of a parallel region are real threads of
// which one runs at a time; a seeded scheduler decides the order and preempts
// them between accesses.  Conflicting unsynchronised accesses are reported.
namespace sim {
struct Member {
    void* cs[256];
    int depth = 0;
    int futex = 0;
    bool done = false, waiting = false, crit = false, blocked = false;
    unsigned ws = 0;
    SimThread* t = nullptr;
    struct Team* team = nullptr;
    int id = 0;
    pthread_t th;
};
struct WorkShare { bool open = false; uint64_t next = 0, end = 0, incr = 1, chunk = 1; bool up = true; };
struct Team {
    int n = 1, curm = 0, arrived = 0, critowner = -1;
    uint64_t swat = ~0ull, mean = 0, npre = 0;
    Rng rng{1};
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
    int depth0 = 0;
    Member m[8];
    std::map<unsigned, WorkShare> ws;
    explicit Team(uint64_t s) : rng(s) {}
};
struct TeamCfg { std::map<uint64_t, Event> ev; uint64_t region = 0; int maxn = 1; };
static TeamCfg tcfg[MAXSLOT];
static uint32_t *RS = nullptr, *RSS = nullptr;   // race shadow of the arena and of the stacks
static uint32_t repoch = 0;

static void team_begin(SimThread* t, const OpInv& spec)
{
    TeamCfg& c = tcfg[t->slot];
    c = TeamCfg();
    for (auto& e : spec.ev)
        if (e.kind == FK_TEAM) { c.ev[e.at] = e; c.maxn = std::max(c.maxn, (int)std::min<int64_t>(8, std::max<int64_t>(1, e.a))); }
}
static void team_end(SimThread* t) { t->inv->r->nregion = (uint32_t)tcfg[t->slot].region; }
static uint64_t team_next(SimThread* t) { return t->team->swat; }
static void team_gap(SimThread* t)
{
    Team* k = t->team;
    if (++k->npre % 1000 == 0 && k->mean) k->mean *= 8;   // very fine interleaving only at the start
    k->swat = k->mean ? t->clock + 1 + k->rng.below(2 * k->mean) : ~0ull;
}
// members 4 byte granules: epoch 14 | crit 1 | has writer 1 | writer 3 | reader mask 8
static void race_access(SimThread* t, uintptr_t a, size_t n, bool w, void* pc)
{
    Team* k = t->team;
    for (uintptr_t g = a >> 2; g <= (a + n - 1) >> 2; ++g) {
        uint32_t* p = nullptr;
        if ((g << 2) - ARENA < ARENASZ) p = RS + (g - (ARENA >> 2));
        else if ((g << 2) - STACKB < STACKSZ * MAXSLOT) p = RSS + (g - (STACKB >> 2));
        if (!p) return;
        uint32_t x = *p;
        bool crit = k->m[k->curm].crit;
        if (x >> 18 != (repoch & 0x3fff)) x = (repoch & 0x3fff) << 18 | 1u << 17;
        const bool cc = (x >> 17 & 1) && crit;      // all accesses inside critical sections
        const uint32_t me = 1u << k->curm, readers = x & 0xff;
        const bool haswr = x >> 16 & 1;
        const uint32_t wr = x >> 13 & 7;
        bool bad = !cc && ((haswr && wr != (uint32_t)k->curm) || (w && (readers & ~me)));
        if (bad) {
            if (t->inv->r->nrace++ == 0) addviol(t, V_RACE, a, t->clock, pc);
            return;
        }
        if (!crit) x &= ~(1u << 17);
        if (w) x = (x & ~(7u << 13)) | 1u << 16 | (uint32_t)k->curm << 13;
        else x |= me;
        *p = x;
    }
}
static void race_forget(uintptr_t a, size_t n)
{
    if (RS && a - ARENA < ARENASZ && n) memset(RS + ((a - ARENA) >> 2), 0, ((n + 3) >> 2) * 4);
}
static int team_pick(Team* k, int notme)
{
    int c[8], n = 0;
    for (int i = 0; i < k->n; ++i)
        if (i != notme && !k->m[i].done && !k->m[i].waiting && !(k->m[i].blocked && k->critowner >= 0)) c[n++] = i;
    return n ? c[k->rng.below(n)] : -1;
}
static void team_go(SimThread* t, int to, bool stay)   // hand over; return when this member runs again
{
    Team* k = t->team;
    if (t->pend) { SimThread* sv = cur; cur = t; check_pending(t); cur = sv; }
    int me = k->curm;
    k->m[me].depth = t->depth;
    memcpy(k->m[me].cs, t->cs, sizeof(void*) * std::min(t->depth, 256));
    k->curm = to;
    CR->nswitch++;
    HB = mix(HB, mix(t->clock * 8 + t->slot, 0x700 + to));
    CR->schedhash = HB;
    t->depth = k->m[to].depth;
    memcpy(t->cs, k->m[to].cs, sizeof(void*) * std::min(t->depth, 256));
    fpost(&k->m[to].futex);
    if (stay) fwait(&k->m[me].futex);
}
static void team_preempt(SimThread* t)
{
    team_gap(t);
    int q = team_pick(t->team, t->team->curm);
    if (q >= 0) {
        SimThread* sv = cur;
        cur = nullptr;
        t->inv->r->fired[FK_TEAM]++;
        team_go(t, q, true);
        cur = sv;
    }
}
static void team_leave(SimThread* t, Team* k)   // this member has finished
{
    Member& m = k->m[k->curm];
    m.done = true;
    int q = team_pick(k, k->curm);
    bool all = true;
    for (int i = 0; i < k->n; ++i) if (!k->m[i].done) all = false;
    if (q < 0 && !all) child_exit(V_DEADLOCK, 0, "parallel region");
    if (k->curm == 0) {
        if (q >= 0) team_go(t, q, true);   // the last one to finish wakes the master
        return;
    }
    team_go(t, q >= 0 ? q : 0, false);
}
static void* member_main(void* a)
{
    Member* m = (Member*)a;
    SimThread* t = m->t;
    self = t;
    fwait(&m->futex);
    cur = t;
    m->team->fn(m->team->data);
    if (t->pend) check_pending(t);
    cur = nullptr;
    team_leave(t, m->team);
    return nullptr;
}
static void run_team(SimThread* t, void (*fn)(void*), void* data, unsigned want)
{
    TeamCfg& c = tcfg[t->slot];
    uint64_t reg = c.region++;
    auto it = c.ev.find(reg);
    int n = it == c.ev.end() ? 1 : (int)std::min<int64_t>(8, std::max<int64_t>(1, it->second.a));
    if (want) n = std::min<int>(n, (int)want);
    Team* k = new Team(it == c.ev.end() ? 1 : it->second.v);
    k->n = n;
    k->fn = fn;
    k->data = data;
    if (it != c.ev.end()) { k->mean = it->second.b > 0 ? (uint64_t)it->second.b : 0; t->inv->r->fired[FK_TEAM]++; }
    if (n == 1) {
        Team* sv = t->team1;
        t->team1 = k;
        cur = t;
        fn(data);
        cur = nullptr;
        t->team1 = sv;
        delete k;
        return;
    }
    if (!RS) {
        RS = (uint32_t*)mmap(nullptr, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        RSS = (uint32_t*)mmap(nullptr, STACKSZ * MAXSLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (RS == MAP_FAILED || RSS == MAP_FAILED) { perror("mmap"); _exit(9); }
    }
    repoch++;
    for (int i = 0; i < n; ++i) {
        Member& m = k->m[i];
        m.t = t;
        m.team = k;
        m.id = i;
        m.depth = t->depth;
        memcpy(m.cs, t->cs, sizeof(void*) * std::min(t->depth, 256));
        if (!i) continue;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void*)(t->slo + 65536 + (i - 1) * 262144), 262144);
        if (pthread_create(&m.th, &at, member_main, &m)) { perror("pthread_create"); _exit(9); }
    }
    t->team = k;
    team_gap(t);
    settle(t);
    int q = (int)k->rng.below(n);
    if (q) team_go(t, q, true);
    cur = t;
    fn(data);
    if (t->pend) check_pending(t);
    cur = nullptr;
    team_leave(t, k);
    for (int i = 1; i < n; ++i) pthread_join(k->m[i].th, nullptr);
    t->team = nullptr;
    repoch++;
    settle(t);
    delete k;
}
// scheduling points of the OpenMP runtime
struct InTeam {
    SimThread* t;
    Team* k;
    InTeam() : t(cur), k(t ? (t->team ? t->team : t->team1) : nullptr) { if (t && t->pend) check_pending(t); cur = nullptr; }
    ~InTeam() { cur = t; }
};
}  // namespace sim

using sim::Team; using sim::InTeam; using sim::WorkShare;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    sim::SimThread* t = sim::cur;
    if (!t || t->team || t->team1) { fn(data); return; }
    if (t->pend) sim::check_pending(t);
    sim::cur = nullptr;
    sim::run_team(t, fn, data, n);
    sim::cur = t;
}
int omp_get_num_threads() { sim::SimThread* t = sim::cur; return t && t->team ? t->team->n : 1; }
int omp_get_thread_num() { sim::SimThread* t = sim::cur; return t && t->team ? t->team->curm : 0; }
int omp_get_max_threads() { sim::SimThread* t = sim::cur; return t ? (t->team ? 1 : sim::tcfg[t->slot].maxn) : 1; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { sim::SimThread* t = sim::cur; return t && t->team; }
int omp_get_level() { sim::SimThread* t = sim::cur; return t && (t->team || t->team1); }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { return 0; }
void GOMP_barrier()
{
    InTeam I;
    Team* k = I.k;
    if (!k || k->n == 1) return;
    if (++k->arrived == k->n) {
        k->arrived = 0;
        for (int i = 0; i < k->n; ++i) k->m[i].waiting = false;
        sim::repoch++;
        return;
    }
    k->m[k->curm].waiting = true;
    int q = sim::team_pick(k, k->curm);
    if (q < 0) sim::child_exit(sim::V_DEADLOCK, 0, "barrier not reached by all members");
    sim::team_go(I.t, q, true);
}
void GOMP_critical_start()
{
    InTeam I;
    Team* k = I.k;
    if (!k || k->n == 1) return;
    while (k->critowner >= 0) {
        k->m[k->curm].blocked = true;
        int q = sim::team_pick(k, k->curm);
        if (q < 0) sim::child_exit(sim::V_DEADLOCK, 0, "critical section");
        sim::team_go(I.t, q, true);
    }
    k->m[k->curm].blocked = false;
    k->critowner = k->curm;
    k->m[k->curm].crit = true;
}
void GOMP_critical_end()
{
    InTeam I;
    if (!I.k || I.k->n == 1) return;
    I.k->critowner = -1;
    I.k->m[I.k->curm].crit = false;
}
void GOMP_critical_name_start(void**) { GOMP_critical_start(); }
void GOMP_critical_name_end(void**) { GOMP_critical_end(); }
void GOMP_atomic_start() { GOMP_critical_start(); }
void GOMP_atomic_end() { GOMP_critical_end(); }
bool GOMP_single_start()
{
    InTeam I;
    Team* k = I.k;
    if (!k) return true;
    WorkShare& w = k->ws[k->m[k->curm].ws++];
    bool first = !w.open;
    w.open = true;
    return first;
}
static bool sim_ws_next(Team* k, WorkShare& w, uint64_t* b, uint64_t* e)
{
    (void)k;
    uint64_t left = w.up ? (w.next < w.end ? (w.end - w.next + w.incr - 1) / w.incr : 0) : (w.next > w.end ? (w.next - w.end - w.incr - 1) / (0 - w.incr) : 0);
    if (!left) return false;
    uint64_t c = std::min(left, w.chunk ? w.chunk : 1);
    *b = w.next;
    w.next += c * w.incr;
    *e = (w.up ? w.next > w.end : w.next < w.end) ? w.end : w.next;
    return true;
}
static bool sim_ws_start(bool up, uint64_t s, uint64_t e, uint64_t i, uint64_t c, uint64_t* b, uint64_t* z)
{
    InTeam I;
    static Team single(1);
    Team* k = I.k ? I.k : &single;
    WorkShare& w = k->ws[k->m[k->curm].ws++];
    if (!w.open || !I.k) { w.open = true; w.up = up; w.next = s; w.end = e; w.incr = i; w.chunk = c; }
    return sim_ws_next(k, w, b, z);
}
static bool sim_ws_again(uint64_t* b, uint64_t* e)
{
    InTeam I;
    if (!I.k) return false;
    if (I.k->n > 1 && I.k->mean) { int q = sim::team_pick(I.k, I.k->curm); if (q >= 0 && I.k->rng.chance(0.5)) sim::team_go(I.t, q, true); }
    return sim_ws_next(I.k, I.k->ws[I.k->m[I.k->curm].ws - 1], b, e);
}
#define SIM_LOOP(K) \
    bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* b, unsigned long long* z) { return sim_ws_start(up, s, e, i, c, (uint64_t*)b, (uint64_t*)z); } \
    bool GOMP_loop_ull_##K##_next(unsigned long long* b, unsigned long long* z) { return sim_ws_again((uint64_t*)b, (uint64_t*)z); } \
    bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* b, long* z) { return sim_ws_start(i > 0, (uint64_t)s ^ 1ull << 63, (uint64_t)e ^ 1ull << 63, (uint64_t)i, (uint64_t)c, (uint64_t*)b, (uint64_t*)z) && (*b ^= (long)(1ull << 63), *z ^= (long)(1ull << 63), true); } \
    bool GOMP_loop_##K##_next(long* b, long* z) { return sim_ws_again((uint64_t*)b, (uint64_t*)z) && (*b ^= (long)(1ull << 63), *z ^= (long)(1ull << 63), true); }
SIM_LOOP(dynamic) SIM_LOOP(guided) SIM_LOOP(nonmonotonic_dynamic) SIM_LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* b, long* z) { return GOMP_loop_dynamic_start(s, e, i, 1, b, z); }
bool GOMP_loop_runtime_next(long* b, long* z) { return GOMP_loop_dynamic_next(b, z); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* b, long* z) { return GOMP_loop_dynamic_start(s, e, i, 1, b, z); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* b, long* z) { return GOMP_loop_dynamic_next(b, z); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* b, unsigned long long* z) { return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, b, z); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long long* b, unsigned long long* z) { return GOMP_loop_ull_dynamic_next(b, z); }
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { GOMP_barrier(); }
#define SIM_PLOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned f) \
{ sim_ploop(fn, data, n, s, e, i, c, f); }
struct SimPL { void (*fn)(void*); void* data; long s, e, i, c; };
static void sim_plbody(void* p)
{
    SimPL* x = (SimPL*)p;
    {
        InTeam I;
        if (I.k) {
            auto& m = I.k->m[I.k->curm];
            WorkShare& w = I.k->ws[m.ws++];
            if (!w.open) { w.open = true; w.up = x->i > 0; w.next = (uint64_t)x->s ^ 1ull << 63; w.end = (uint64_t)x->e ^ 1ull << 63; w.incr = (uint64_t)x->i; w.chunk = (uint64_t)x->c; }
        }
    }
    x->fn(x->data);
}
static void sim_ploop(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned f)
{
    SimPL x{fn, data, s, e, i, c ? c : 1};
    GOMP_parallel(sim_plbody, &x, n, f);
}
SIM_PLOOP(dynamic) SIM_PLOOP(guided) SIM_PLOOP(nonmonotonic_dynamic) SIM_PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f) { sim_ploop(fn, data, n, s, e, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f) { sim_ploop(fn, data, n, s, e, i, 1, f); }
// explicit tasks run at the point of creation
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*)
{
    if (!cpyfn) { fn(data); return; }
    char* raw = (char*)alloca((size_t)(sz + al));
    char* p = (char*)(((uintptr_t)raw + (uintptr_t)al - 1) & ~((uintptr_t)al - 1));
    cpyfn(p, data);
    fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
unsigned GOMP_sections_next()
{
    long b, e;
    return sim_ws_again((uint64_t*)&b, (uint64_t*)&e) ? (unsigned)b : 0;
}
unsigned GOMP_sections_start(unsigned n)
{
    uint64_t b, e;
    return sim_ws_start(true, 1, n + 1, 1, 1, &b, &e) ? (unsigned)b : 0;
}
void GOMP_sections_end_nowait() {}
void GOMP_sections_end() { GOMP_barrier(); }
static void sim_secbody(void* p)
{
    SimPL* x = (SimPL*)p;
    {
        InTeam I;
        if (I.k) {
            auto& m = I.k->m[I.k->curm];
            WorkShare& w = I.k->ws[m.ws++];
            if (!w.open) { w.open = true; w.up = true; w.next = 1; w.end = (uint64_t)x->e + 1; w.incr = 1; w.chunk = 1; }
        }
    }
    x->fn(x->data);
}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned f)
{
    SimPL x{fn, data, 0, (long)count, 1, 1};
    GOMP_parallel(sim_secbody, &x, n, f);
}
}
