// Simulated task runtime with the interface of StarPU: a seeded discrete-event
// scheduler decides when each submitted task runs and in which copy of its
// data.  Included at the end of simrt.cpp.
#include "starpu/starpu.h"

namespace sim {
struct SRoot;
struct SPlan { starpu_data_handle_t father; std::vector<starpu_data_handle_t> ch; bool open = true; bool grid = false; };
}
struct _starpu_data_state {
    sim::SRoot* root = nullptr;
    starpu_data_handle_t father = nullptr;
    sim::SPlan* plan = nullptr;     // the plan this handle belongs to
    sim::SPlan* grid = nullptr;     // children made by map_filters
    bool var = false, live = true;
    uint32_t r0 = 0, c0 = 0, m = 0, n = 0;
    int nplan = 0;
    int acq = 0;                    // mode of a current acquisition
};
namespace sim {
typedef _starpu_data_state SHandle;
struct SRoot {
    uintptr_t ptr;
    uint32_t ld, nx, ny;
    size_t es, bytes;
    bool shadowed, live = true;
    std::vector<uint8_t> cls;
    std::vector<char> truth;
    std::vector<uint8_t> stale;
    SHandle* h;
};
struct STask {
    starpu_task* t;
    uint64_t ord, elig, tie;
    Event e;
    bool hasev = false;
    std::vector<std::pair<SHandle*, int>> b;
};
struct SPU {
    uint64_t now = 0, ord = 0, ran = 0;
    bool intask = false;
    std::map<uint64_t, Event> ev;
    std::vector<STask*> pend;
    std::vector<SRoot*> roots;
    std::vector<SPlan*> plans;
    std::set<SHandle*> handles;
    std::set<starpu_task*> created;
};
static SPU* spu[MAXSLOT];
struct InRt {   // runtime code is not part of the program under test
    SimThread* t;
    SPU& u;
    InRt() : t(cur), u(*spu[self->slot])
    {
        if (!t) { fprintf(stderr, "task runtime used outside a call\n"); _exit(9); }
        if (t->pend) check_pending(t);
        cur = nullptr;
    }
    ~InRt() { cur = t; }
};
static void sviol(SimThread* t, int kind, const char* fmt, ...)
{
    InvRes* r = t->inv->r;
    if (r->nviol >= 12) return;
    Viol& v = r->viol[r->nviol++];
    memset(&v, 0, sizeof v);
    v.kind = kind;
    v.elem = -1;
    v.clock = t->clock;
    strcpy(v.oper, "-");
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(v.where, sizeof v.where, fmt, ap);
    va_end(ap);
}
static void sfatal(const char* fmt, ...)
{
    char w[200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(w, sizeof w, fmt, ap);
    va_end(ap);
    child_exit(V_ST_RULE, 0, w);
}
static SHandle* usable(InRt& I, SHandle* h, const char* who)
{
    if (!I.u.handles.count(h)) sfatal("%s: not a data handle", who);
    if (!h->live) sviol(I.t, V_ST_RULE, "%s: handle used after it was released", who);
    return h;
}
static bool overlap(const SHandle* a, const SHandle* b)
{
    return a->root == b->root && a->m && a->n && b->m && b->n && a->r0 < b->r0 + b->m && b->r0 < a->r0 + a->m && a->c0 < b->c0 + b->n && b->c0 < a->c0 + a->n;
}
static bool conflict(const SHandle* a, int ma, const SHandle* b, int mb) { return ((ma | mb) & STARPU_W) && overlap(a, b); }
static uintptr_t addrof(const SHandle* h) { return h->root->ptr + (h->r0 + (size_t)h->c0 * h->root->ld) * h->root->es; }
template <class F> static void eachcol(const SHandle* h, F&& f)
{
    size_t es = h->root->es;
    for (uint32_t j = 0; j < h->n; ++j) f((h->r0 + (size_t)(h->c0 + j) * h->root->ld) * es, h->m * es, j);
}
static void revoke(SHandle* h)
{
    SRoot* r = h->root;
    if (r->shadowed) eachcol(h, [&](size_t o, size_t n, uint32_t) { if (n) memset(&SH(r->ptr + o), C_NONE, n); });
}
static void grant(SHandle* h, int mode)
{
    SRoot* r = h->root;
    if (!r->shadowed) return;
    eachcol(h, [&](size_t o, size_t n, uint32_t) {
        for (size_t k = 0; k < n; ++k) {
            uint8_t c = r->cls[o + k];
            SH(r->ptr + o + k) = !(mode & STARPU_W) ? (uint8_t)C_IN : (c == C_IN || c == C_NOREF || c == C_NONE) ? (uint8_t)C_IN : (uint8_t)C_INOUT;
        }
    });
}
static void refresh(SHandle* h)   // make main memory valid
{
    SRoot* r = h->root;
    eachcol(h, [&](size_t o, size_t n, uint32_t) {
        for (size_t k = 0; k < n; ++k) if (r->stale[o + k]) { ((char*)r->ptr)[o + k] = r->truth[o + k]; r->stale[o + k] = 0; }
    });
}
static uint32_t compsz(const SRoot* r) { return r->es == 16 ? 8 : r->es == 8 ? 8 : r->es >= 4 ? 4 : 1; }
// NaN with a random payload, or random bits for other sizes
static void poison1(char* p, uint32_t cs, uint64_t s)
{
    uint64_t v = mix(s, 0x51);
    if (cs == 8) { v |= 0x7ff8000000000000ull; memcpy(p, &v, 8); }
    else if (cs == 4) { uint32_t w = (uint32_t)v | 0x7fc00000u; memcpy(p, &w, 4); }
    else memcpy(p, &v, cs);
}
static bool depfree(SPU& u, const STask* t)
{
    for (auto* p : u.pend) {
        if (p->ord >= t->ord) continue;
        for (auto& a : p->b) for (auto& b : t->b) if (conflict(a.first, a.second, b.first, b.second) && !(a.first == b.first && (a.second & b.second & STARPU_COMMUTE))) return false;
    }
    for (auto* h : u.handles)
        if (h->acq) for (auto& b : t->b) if (conflict(h, h->acq, b.first, b.second)) return false;
    return true;
}
static void exec_task(SimThread* t, SPU& u, STask* k)
{
    u.pend.erase(std::find(u.pend.begin(), u.pend.end(), k));
    u.ran++;
    starpu_task* st = k->t;
    starpu_codelet* cl = st->cl;
    size_t nb = k->b.size();
    uint64_t fl = k->hasev ? (uint64_t)k->e.b : 0;
    uint64_t vs = k->hasev ? k->e.v : 0;
    starpu_matrix_interface mi[STARPU_NMAXBUFS];
    starpu_variable_interface vi[STARPU_NMAXBUFS];
    void* bufs[STARPU_NMAXBUFS];
    char* rem[STARPU_NMAXBUFS];
    uint32_t rld[STARPU_NMAXBUFS];
    for (size_t i = 0; i < nb; ++i) {
        SHandle* h = k->b[i].first;
        int mode = k->b[i].second & 3;
        SRoot* r = h->root;
        uint32_t cs = compsz(r);
        bool remote = (fl & 1) || ((fl & 16) && ((vs >> (8 + i)) & 1));
        rem[i] = nullptr;
        rld[i] = r->ld;
        uintptr_t p = addrof(h);
        if (remote) {
            rld[i] = h->m + ((fl & 2) ? 1 + (uint32_t)((vs >> (16 + i)) & 1) : 0);
            if (!rld[i]) rld[i] = 1;
            size_t bytes = (size_t)rld[i] * h->n * r->es;
            rem[i] = (char*)heap_alloc(t, bytes, 16);
            if (!rem[i]) sfatal("simulated memory exhausted");
            for (size_t o = 0; o + cs <= bytes; o += cs) poison1(rem[i] + o, cs, mix(vs, o * 8 + i));
            if (bytes) memset(&SH(rem[i]), C_NOREF, bytes);
            eachcol(h, [&](size_t o, size_t n, uint32_t j) {
                char* q = rem[i] + (size_t)j * rld[i] * r->es;
                if (mode & STARPU_R) for (size_t z = 0; z < n; ++z) q[z] = r->stale[o + z] ? r->truth[o + z] : ((char*)r->ptr)[o + z];
                if (n) memset(&SH(q), mode & STARPU_W ? C_INOUT : C_IN, n);
            });
            p = (uintptr_t)rem[i];
        }
        else {
            refresh(h);
            if (mode == STARPU_W && (fl & 8)) {
                eachcol(h, [&](size_t o, size_t n, uint32_t) { for (size_t z = 0; z + cs <= n; z += cs) if (!r->shadowed || (r->cls[o + z] != C_IN && r->cls[o + z] != C_NOREF)) poison1((char*)r->ptr + o + z, cs, mix(vs, o + z)); });
            }
        }
        if (h->var) { vi[i] = {STARPU_VARIABLE_INTERFACE_ID, p, p, 0, r->es}; bufs[i] = &vi[i]; }
        else { mi[i] = {STARPU_MATRIX_INTERFACE_ID, p, p, 0, h->m, h->n, rld[i], r->es, (size_t)rld[i] * h->n * r->es}; bufs[i] = &mi[i]; }
    }
    for (size_t i = 0; i < nb; ++i) if (!rem[i] && (k->b[i].second & 3) == STARPU_R) grant(k->b[i].first, STARPU_R);
    for (size_t i = 0; i < nb; ++i) if (!rem[i] && (k->b[i].second & STARPU_W)) grant(k->b[i].first, k->b[i].second & 3);
    int where = t->depth;
    bool threw = false;
    u.intask = true;
    cur = t;
    try { cl->cpu_funcs[0](bufs, st->cl_arg); }
    catch (...) { threw = true; }
    if (t->pend) check_pending(t);
    cur = nullptr;
    u.intask = false;
    t->depth = where;
    const char* nm = cl->name ? cl->name : "?";
    if (threw) sviol(t, V_ST_RULE, "an exception left task %s", nm);
    for (size_t i = 0; i < nb; ++i) {
        SHandle* h = k->b[i].first;
        int mode = k->b[i].second & 3;
        SRoot* r = h->root;
        uint32_t cs = compsz(r);
        if (!rem[i]) {
            if (mode == STARPU_W && (fl & 8)) {
                bool left = false;
                eachcol(h, [&](size_t o, size_t n, uint32_t) { for (size_t z = 0; z + cs <= n; z += cs) { char q[8]; poison1(q, cs, mix(vs, o + z)); if ((!r->shadowed || (r->cls[o + z] != C_IN && r->cls[o + z] != C_NOREF)) && !memcmp(q, (char*)r->ptr + o + z, cs)) left = true; } });
                if (left) sviol(t, V_ST_FOOT, "task %s declares buffer %zu as write-only but does not overwrite all of it", nm, i);
            }
            revoke(h);
            continue;
        }
        bool left = false;
        if (mode & STARPU_W)
            eachcol(h, [&](size_t o, size_t n, uint32_t j) {
                char* q = rem[i] + (size_t)j * rld[i] * r->es;
                for (size_t z = 0; z < n; z += cs) {
                    char x[8];
                    size_t off = (size_t)j * rld[i] * r->es + z;
                    poison1(x, cs, mix(vs, off * 8 + i));
                    if (mode == STARPU_W && !memcmp(x, q + z, cs)) left = true;
                }
                for (size_t z = 0; z < n; ++z) {
                    r->truth[o + z] = q[z];
                    if (fl & 4) { r->stale[o + z] = 1; ((char*)r->ptr)[o + z] = (char)mix(vs, o + z); }
                    else { r->stale[o + z] = 0; ((char*)r->ptr)[o + z] = q[z]; }
                }
            });
        if (left) sviol(t, V_ST_FOOT, "task %s declares buffer %zu as write-only but does not overwrite all of it", nm, i);
        size_t bytes = (size_t)rld[i] * h->n * r->es;
        if (bytes) memset(&SH(rem[i]), C_HEAP, bytes);
        heap_free(rem[i]);
    }
    if (st->callback_func) {
        cur = t;
        st->callback_func(st->callback_arg);
        if (t->pend) check_pending(t);
        cur = nullptr;
    }
    if (k->hasev && t->inv) t->inv->r->fired[FK_TASK]++;
    if (k->hasev || u.pend.size()) {
        CR->nswitch++;
        HB = mix(HB, mix(k->ord * 4 + t->slot, u.now));
        CR->schedhash = HB;
    }
    heap_free(st);
    delete k;
}
static STask* choose(SPU& u, bool any)
{
    STask* best = nullptr;
    for (auto* p : u.pend) {
        if (!any && p->elig > u.now) continue;
        if (!depfree(u, p)) continue;
        auto key = [&](STask* x) { return std::make_tuple(any ? std::max(x->elig, u.now) : 0, x->tie, x->ord); };
        if (!best || key(p) < key(best)) best = p;
    }
    return best;
}
static void tick(InRt& I)
{
    if (I.u.intask) sfatal("runtime called from inside a task");
    I.u.now++;
    while (STask* k = choose(I.u, false)) exec_task(I.t, I.u, k);
}
template <class P> static void waitfor(InRt& I, const char* what, P&& ok)
{
    while (!ok()) {
        STask* k = choose(I.u, true);
        if (!k) child_exit(V_DEADLOCK, 0, what);
        I.u.now = std::max(I.u.now, k->elig);
        exec_task(I.t, I.u, k);
    }
}
static bool quiet(SPU& u, SHandle* h, int mode)
{
    for (auto* p : u.pend) for (auto& b : p->b) if (conflict(h, mode, b.first, b.second)) return false;
    return true;
}
static SHandle* newhandle(InRt& I, SRoot* r, SHandle* father, SPlan* pl)
{
    SHandle* h = new SHandle;
    h->root = r;
    h->father = father;
    h->plan = pl;
    I.u.handles.insert(h);
    return h;
}
static void applyfilter(InRt& I, SHandle* F, starpu_data_filter* f, unsigned id, unsigned nparts, SHandle* c)
{
    SRoot* r = F->root;
    const size_t es = r->es;
    auto run = [&](starpu_matrix_interface fi, void* child) {
        cur = I.t;
        f->filter_func(&fi, child, f, id, nparts);
        if (I.t->pend) check_pending(I.t);
        cur = nullptr;
    };
    union U { starpu_matrix_interface m; starpu_variable_interface v; } u[3];
    memset(u, 0, sizeof u);
    uintptr_t base = addrof(F);
    run({STARPU_MATRIX_INTERFACE_ID, base, base, 0, F->m, F->n, r->ld, es, r->ld * (size_t)F->n * es}, &u[0]);
    const uint32_t ld2 = F->m ? F->m : 1;
    const uintptr_t base2 = 0x40000000;
    run({STARPU_MATRIX_INTERFACE_ID, base2, base2, 0, F->m, F->n, ld2, es, ld2 * (size_t)F->n * es}, &u[1]);
    run({STARPU_MATRIX_INTERFACE_ID, 0, 0, 0, F->m, F->n, 0, es, 0}, &u[2]);
    c->var = u[0].m.id == STARPU_VARIABLE_INTERFACE_ID;
    uint32_t rr[2], cc[2];
    for (int k = 0; k < 2; ++k) {
        size_t off = u[k].m.ptr - (k ? base2 : base), ld = k ? ld2 : r->ld;
        rr[k] = (uint32_t)(off / es % ld);
        cc[k] = (uint32_t)(off / es / ld);
        if (off % es || off > ld * es * (F->n + 1)) sfatal("a data filter yields data outside of the father");
        if (!c->var && u[k].m.ld != ld) sviol(I.t, V_ST_FOOT, "a data filter changes the leading dimension");
        if (u[k].m.dev_handle + u[k].m.offset != u[k].m.ptr) sviol(I.t, V_ST_FOOT, "a data filter yields an inconsistent device offset");
    }
    c->m = c->var ? 1 : u[0].m.nx;
    c->n = c->var ? 1 : u[0].m.ny;
    bool empty = !c->m || !c->n;
    if (!empty) {
        if (rr[0] != rr[1] || cc[0] != cc[1]) sviol(I.t, V_ST_FOOT, "a data filter selects different elements on another memory node");
        if (rr[0] + c->m > F->m || cc[0] + c->n > F->n) sfatal("a data filter yields data outside of the father");
    }
    if (!c->var) {
        if (u[1].m.nx != c->m || u[1].m.ny != c->n || u[2].m.nx != c->m || u[2].m.ny != c->n || u[0].m.elemsize != es || u[1].m.elemsize != es || u[2].m.elemsize != es) sviol(I.t, V_ST_FOOT, "a data filter yields different shapes on different memory nodes");
        if (u[2].m.ptr) sviol(I.t, V_ST_FOOT, "a data filter invents data on a node that has none");
        if (u[2].m.allocsize < (size_t)c->m * c->n * es) sviol(I.t, V_ST_FOOT, "a data filter announces too small a copy");
    }
    c->r0 = F->r0 + rr[0];
    c->c0 = F->c0 + cc[0];
}
static void regroot(InRt& I, starpu_data_handle_t* out, uintptr_t ptr, uint32_t ld, uint32_t nx, uint32_t ny, size_t es, bool var)
{
    SRoot* r = new SRoot;
    r->ptr = ptr; r->ld = ld; r->nx = nx; r->ny = ny; r->es = es;
    if (!ld || !nx || !ny || ld < nx) sfatal("matrix registered with leading dimension %u, %u rows, %u columns", ld, nx, ny);
    r->bytes = ((size_t)ld * (ny - 1) + nx) * es;
    r->shadowed = ptr - ARENA < ARENASZ;
    r->cls.resize(r->bytes);
    r->truth.resize(r->bytes);
    r->stale.resize(r->bytes);
    SHandle* h = newhandle(I, r, nullptr, nullptr);
    h->m = nx;
    h->n = ny;
    h->var = var;
    r->h = h;
    for (auto* o : I.u.roots) if (o->live && o->ptr < ptr + r->bytes && ptr < o->ptr + o->bytes) sviol(I.t, V_ST_RULE, "memory registered twice");
    I.u.roots.push_back(r);
    if (r->shadowed) {
        for (size_t k = 0; k < r->bytes; ++k) r->cls[k] = SH(ptr + k);
        bool bad = false;
        eachcol(h, [&](size_t o, size_t n, uint32_t) { for (size_t k = 0; k < n; ++k) if (r->cls[o + k] == C_NONE || r->cls[o + k] == C_FREED) bad = true; });
        if (bad) sviol(I.t, V_ST_RULE, "memory registered that does not belong to the call");
    }
    revoke(h);
    *out = h;
}
static void restore(SRoot* r)
{
    refresh(r->h);
    if (r->shadowed) for (size_t k = 0; k < r->bytes; ++k) SH(r->ptr + k) = r->cls[k];
    r->live = false;
}
// managed data touched by the program (not by a task) outside an acquisition
static bool st_unheld(SimThread* t, uintptr_t a)
{
    SPU* u = spu[t->slot];
    if (!u || u->intask) return false;
    for (auto* r : u->roots) if (r->live && a - r->ptr < r->bytes) return true;
    return false;
}
static void starpu_begin(SimThread* t, const OpInv& spec)
{
    delete spu[t->slot];
    SPU* u = spu[t->slot] = new SPU;
    for (auto& e : spec.ev) if (e.kind == FK_TASK) u->ev[e.at] = e;
}
static void starpu_end(SimThread* t)
{
    SPU* u = spu[t->slot];
    t->inv->r->ntask = (uint32_t)u->ord;
    if (u->pend.size()) sviol(t, V_ST_RULE, "%zu tasks were submitted that nobody waited for", u->pend.size());
    for (auto* r : u->roots) if (r->live) { sviol(t, V_ST_RULE, "a matrix is still registered"); restore(r); break; }
    for (auto* r : u->roots) if (r->live) restore(r);
    if (u->created.size()) sviol(t, V_ST_RULE, "%zu tasks were created and never submitted", u->created.size());
}
}  // namespace sim

extern "C" {
void starpu_matrix_data_register(starpu_data_handle_t* h, int node, uintptr_t ptr, uint32_t ld, uint32_t nx, uint32_t ny, size_t es)
{
    InRt I;
    tick(I);
    if (node != STARPU_MAIN_RAM) sfatal("registration on node %d", node);
    regroot(I, h, ptr, ld, nx, ny, es, false);
}
void starpu_variable_data_register(starpu_data_handle_t* h, int node, uintptr_t ptr, size_t es)
{
    InRt I;
    tick(I);
    if (node != STARPU_MAIN_RAM) sfatal("registration on node %d", node);
    regroot(I, h, ptr, 1, 1, 1, es, true);
}
uint32_t starpu_matrix_get_nx(starpu_data_handle_t h) { InRt I; return usable(I, h, "starpu_matrix_get_nx")->m; }
uint32_t starpu_matrix_get_ny(starpu_data_handle_t h) { InRt I; return usable(I, h, "starpu_matrix_get_ny")->n; }
uintptr_t starpu_matrix_get_local_ptr(starpu_data_handle_t h) { InRt I; return addrof(usable(I, h, "starpu_matrix_get_local_ptr")); }
uintptr_t starpu_variable_get_local_ptr(starpu_data_handle_t h) { InRt I; return addrof(usable(I, h, "starpu_variable_get_local_ptr")); }
static void sim_grid(InRt& I, SHandle* h, starpu_data_filter** f, unsigned n)
{
    if (!n) return;
    SPlan* p = new SPlan;
    I.u.plans.push_back(p);
    p->father = h;
    p->grid = true;
    unsigned nc = f[0]->get_nchildren ? f[0]->get_nchildren(f[0], h) : f[0]->nchildren;
    if (!nc) sfatal("partition into no part");
    for (unsigned i = 0; i < nc; ++i) {
        SHandle* c = newhandle(I, h->root, h, p);
        applyfilter(I, h, f[0], i, nc, c);
        for (auto* o : p->ch) if (overlap(o, c)) sviol(I.t, V_ST_RULE, "a grid has overlapping tiles");
        p->ch.push_back(c);
        sim_grid(I, c, f + 1, n - 1);
    }
    h->grid = p;
}
void starpu_data_map_filters(starpu_data_handle_t h, unsigned n, ...)
{
    InRt I;
    tick(I);
    usable(I, h, "starpu_data_map_filters");
    starpu_data_filter* f[8];
    va_list ap;
    va_start(ap, n);
    for (unsigned i = 0; i < n && i < 8; ++i) f[i] = va_arg(ap, starpu_data_filter*);
    va_end(ap);
    waitfor(I, "partition of a matrix in use", [&] { return quiet(I.u, h, STARPU_RW); });
    refresh(h);
    sim_grid(I, h, f, n);
}
starpu_data_handle_t starpu_data_get_child(starpu_data_handle_t h, unsigned i)
{
    InRt I;
    usable(I, h, "starpu_data_get_child");
    if (!h->grid || i >= h->grid->ch.size()) sfatal("starpu_data_get_child: there is no child %u", i);
    return h->grid->ch[i];
}
starpu_data_handle_t starpu_data_get_sub_data(starpu_data_handle_t h, unsigned d, ...)
{
    InRt I;
    usable(I, h, "starpu_data_get_sub_data");
    va_list ap;
    va_start(ap, d);
    for (unsigned k = 0; k < d; ++k) {
        unsigned i = va_arg(ap, unsigned);
        if (!h->grid || i >= h->grid->ch.size()) sfatal("starpu_data_get_sub_data: there is no child %u", i);
        h = h->grid->ch[i];
    }
    va_end(ap);
    return h;
}
void starpu_data_partition_plan(starpu_data_handle_t h, struct starpu_data_filter* f, starpu_data_handle_t* children)
{
    InRt I;
    tick(I);
    usable(I, h, "starpu_data_partition_plan");
    if (h->grid) sfatal("partition plan of a partitioned matrix");
    SPlan* p = new SPlan;
    I.u.plans.push_back(p);
    p->father = h;
    unsigned nc = f->get_nchildren ? f->get_nchildren(f, h) : f->nchildren;
    for (unsigned i = 0; i < nc; ++i) {
        SHandle* c = newhandle(I, h->root, h, p);
        applyfilter(I, h, f, i, nc, c);
        p->ch.push_back(c);
        children[i] = c;
    }
    h->nplan++;
}
void starpu_data_partition_clean(starpu_data_handle_t h, unsigned n, starpu_data_handle_t* children)
{
    InRt I;
    tick(I);
    usable(I, h, "starpu_data_partition_clean");
    SPlan* p = nullptr;
    for (unsigned i = 0; i < n; ++i) {
        usable(I, children[i], "starpu_data_partition_clean");
        if (i == 0) p = children[i]->plan;
        if (children[i]->plan != p || !p || p->father != h) sfatal("starpu_data_partition_clean: children of another plan");
        if (children[i]->acq) sviol(I.t, V_ST_RULE, "a partition is released while a part is acquired");
        if (children[i]->nplan) sviol(I.t, V_ST_RULE, "a partition is released before its own partitions");
    }
    if (!p || p->ch.size() != n) { sviol(I.t, V_ST_RULE, "a partition of %zu parts is released as %u parts", p ? p->ch.size() : 0, n); }
    if (p) {
        if (!p->open) return;
        p->open = false;
        for (auto* c : p->ch) c->live = false;
        h->nplan--;
    }
}
void starpu_matrix_filter_pick_variable(void* father, void* child, struct starpu_data_filter* f, unsigned, unsigned)
{
    SimThread* t = cur;
    cur = nullptr;
    auto* m = (starpu_matrix_interface*)father;
    auto* v = (starpu_variable_interface*)child;
    const uint32_t* pos = (const uint32_t*)f->filter_arg_ptr;
    if (pos[0] >= m->nx || pos[1] >= m->ny) sfatal("entry (%u,%u) of a %u-by-%u tile", pos[0], pos[1], m->nx, m->ny);
    v->id = STARPU_VARIABLE_INTERFACE_ID;
    v->elemsize = m->elemsize;
    if (m->dev_handle) {
        size_t o = (pos[0] + (size_t)pos[1] * m->ld) * m->elemsize;
        if (m->ptr) v->ptr = m->ptr + o;
        v->dev_handle = m->dev_handle;
        v->offset = m->offset + o;
    }
    cur = t;
}
struct starpu_data_interface_ops* starpu_matrix_filter_pick_variable_child_ops(struct starpu_data_filter*, unsigned)
{
    static starpu_data_interface_ops o = {STARPU_VARIABLE_INTERFACE_ID, sizeof(starpu_variable_interface)};
    return &o;
}
int starpu_data_acquire(starpu_data_handle_t h, enum starpu_data_access_mode m)
{
    InRt I;
    tick(I);
    usable(I, h, "starpu_data_acquire");
    if (h->grid) sfatal("acquisition of a partitioned matrix");
    waitfor(I, "starpu_data_acquire", [&] { return quiet(I.u, h, m); });
    for (auto* o : I.u.handles) if (o->acq && conflict(h, m, o, o->acq)) child_exit(V_DEADLOCK, 0, "starpu_data_acquire of data the caller holds");
    refresh(h);
    h->acq = m;
    grant(h, m);
    return 0;
}
void starpu_data_release(starpu_data_handle_t h)
{
    InRt I;
    usable(I, h, "starpu_data_release");
    if (!h->acq) sviol(I.t, V_ST_RULE, "release without acquisition");
    h->acq = 0;
    revoke(h);
    for (auto* o : I.u.handles) if (o->acq && overlap(o, h)) grant(o, o->acq);
    tick(I);
}
void starpu_data_unpartition(starpu_data_handle_t h, unsigned)
{
    InRt I;
    tick(I);
    usable(I, h, "starpu_data_unpartition");
    if (!h->grid) sviol(I.t, V_ST_RULE, "starpu_data_unpartition of a matrix that is not partitioned");
    waitfor(I, "starpu_data_unpartition", [&] { return quiet(I.u, h, STARPU_RW); });
    std::vector<SHandle*> todo{h};
    while (todo.size()) {
        SHandle* x = todo.back();
        todo.pop_back();
        if (x->nplan) sviol(I.t, V_ST_RULE, "a matrix is released while %d partitions of a tile are planned", x->nplan);
        if (x->acq) sviol(I.t, V_ST_RULE, "a matrix is released while a part is acquired");
        if (x->grid) { for (auto* c : x->grid->ch) todo.push_back(c); x->grid = nullptr; }
        if (x != h) x->live = false;
    }
    for (auto* o : I.u.handles) if (o->acq && overlap(o, h)) sviol(I.t, V_ST_RULE, "a matrix is released while an element is acquired");
    refresh(h);
}
void starpu_data_unregister(starpu_data_handle_t h)
{
    InRt I;
    tick(I);
    usable(I, h, "starpu_data_unregister");
    if (h->grid) sviol(I.t, V_ST_RULE, "starpu_data_unregister of a partitioned matrix");
    if (h->father) sviol(I.t, V_ST_RULE, "starpu_data_unregister of a part");
    waitfor(I, "starpu_data_unregister", [&] { return quiet(I.u, h, STARPU_RW); });
    if (h->root->live) restore(h->root);
    h->live = false;
}
void starpu_data_unregister_submit(starpu_data_handle_t h) { starpu_data_unregister(h); }
struct starpu_task* starpu_task_create(void)
{
    InRt I;
    tick(I);
    auto* t = (starpu_task*)heap_alloc(I.t, sizeof(starpu_task), 16);
    if (!t) return nullptr;
    memset(t, 0, sizeof *t);
    I.u.created.insert(t);
    return t;
}
int starpu_task_submit(struct starpu_task* st)
{
    InRt I;
    if (I.u.intask) sfatal("runtime called from inside a task");
    if (!I.u.created.count(st)) sfatal("a task is submitted twice");
    I.u.created.erase(st);
    if (!st->cl || !st->cl->cpu_funcs[0] || !(st->cl->where & STARPU_CPU)) sfatal("a task without implementation");
    STask* k = new STask;
    k->t = st;
    k->ord = I.u.ord++;
    k->elig = I.u.now + 1;
    k->tie = 0;
    auto it = I.u.ev.find(k->ord);
    if (it != I.u.ev.end()) { k->hasev = true; k->e = it->second; k->elig += k->e.a; k->tie = k->e.v >> 32; }
    const char* nm = st->cl->name ? st->cl->name : "?";
    for (int i = 0; i < st->cl->nbuffers; ++i) {
        SHandle* h = usable(I, st->handles[i], nm);
        if (h->grid) sfatal("task %s is given a partitioned matrix", nm);
        k->b.emplace_back(h, (int)st->cl->modes[i]);
    }
    for (size_t i = 0; i < k->b.size(); ++i)
        for (size_t j = 0; j < i; ++j) {
            SHandle *a = k->b[i].first, *b = k->b[j].first;
            bool w = (k->b[i].second | k->b[j].second) & STARPU_W;
            if (!w) continue;
            if (overlap(a, b)) sviol(I.t, V_ST_RULE, "task %s writes data it is also given under another handle", nm);
            else if (a->father == b->father && a->plan != b->plan && a->father) sviol(I.t, V_ST_RULE, "task %s is given parts of two different partitions of one tile", nm);
        }
    I.u.pend.push_back(k);
    tick(I);
    return 0;
}
int starpu_task_wait_for_all(void)
{
    InRt I;
    tick(I);
    waitfor(I, "starpu_task_wait_for_all", [&] { return I.u.pend.empty(); });
    return 0;
}
int starpu_memory_pin(void*, size_t) { return 0; }
int starpu_memory_unpin(void*, size_t) { return 0; }
int starpu_malloc(void** p, size_t n) { SimThread* t = cur; *p = t ? heap_alloc(t, n, 64) : malloc(n); return *p ? 0 : -ENOMEM; }
int starpu_free_noflag(void* p, size_t) { xdel(p); return 0; }
unsigned starpu_cuda_worker_get_count(void) { return 0; }
void sim_starpu_abort(const char* what, int err)
{
    char w[120];
    snprintf(w, sizeof w, "%s returned %d", what, err);
    child_exit(V_ABORT, SIGABRT, w);
}
}
