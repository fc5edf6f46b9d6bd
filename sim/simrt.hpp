// Simulator runtime interface, shared by the (uninstrumented) runner and the
// (instrumented) operation catalogue.  POD only across the boundary.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return double(next() >> 11) * 0x1p-53; }
    bool chance(double p) { return unit() < p; }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9e3779b97f4a7c15ull + b + 0x1234567);
    r.next();
    return r.next();
}

// ---------------------------------------------------------------- storage classes
enum Cls : uint8_t {
    C_NONE = 0,    // belongs to nobody
    C_NOREF = 1,   // belongs to the caller, must not be changed, must have no influence
    C_IN = 2,      // read-only input
    C_OUT = 3,     // output only (previous contents must not matter)
    C_INOUT = 4,   // input and output
    C_WORK = 5,    // workspace: arbitrary contents before and after
    C_SCRATCH = 6, // input, destroyed
    C_HEAP = 7,    // live block allocated by the call
    C_FREED = 8,   // released block
    C_CLOS = 9     // argument block of the call (options objects etc.)
};

struct Operand {
    char name[16];
    char kind;       // s d c z : floating; i=int32 l=int64/size_t b=byte (non-floating)
    uint8_t cls;     // default class of the referenced elements
    uint8_t owned;   // 0 when aliased with another invocation's operand
    uint8_t nanweak; // NaN here has no guaranteed effect
    uint32_t esize;  // bytes per element (complex counts as one)
    char* base;
    size_t span;     // bytes
};

// What a factory receives (exe side object, opaque to catalogue)
struct Build;
typedef int64_t (*CallFn)(void*);
typedef void (*DtorFn)(void*);
extern "C" {
void* sim_operand(Build*, const char* name, char kind, uint32_t esize, size_t nelem, int cls);
void sim_setcls(Build*, void* p, size_t bytes, int cls);
void sim_operand_flag(Build*, int flag);
void* sim_closure(Build*, size_t bytes);
void sim_call(Build*, CallFn, void* obj, DtorFn);
void sim_flags(Build*, uint32_t f);
void sim_probe(int id);        // reach probe, callable from closures
int sim_fault_arith();         // counted arithmetic op; returns 1 when it must throw
}
// flags set on an invocation by its factory
enum : uint32_t {
    F_NOALLOC = 1,     // documented to acquire no memory
    F_NANSTRONG = 2,   // every output element that depends on a NaN element becomes NaN/Inf
    F_NONAN = 4,       // no NaN guarantee for this call
    F_ITER = 8,        // iterative
    F_REJECT = 16,     // invalid call: must throw
    F_INFO = 32,       // return value is a status: nonzero means failure, outputs unspecified
    F_WORKPAIR = 64,   // has an allocating twin (same outputs)
    F_NOSTART = 128,
    F_NESTED = 256,    // iteration inside iteration: the step bound is too far away to be reached
    F_ENTRY = 512,     // the contents fix the shape of the problem: corrupt them at entry only
    F_DATAEXC = 1024   // some contents are rejected by exception
};

// operation attributes known without building
enum : uint32_t { A_CAPI = 1, A_CPP = 2, A_RNG = 4, A_WORK = 8, A_REJECT = 16, A_FAULTNUM = 32, A_HEAVY = 64, A_STARPU = 128, A_OMP = 256 };

struct BuildParams {
    uint64_t seed;  // input seed
    int size;       // size hint
    int variant;    // op specific: 0 = default; 1 = allocating twin of a _work op; >=100 invalid variants
};
typedef void (*Factory)(Build*, const BuildParams*);
struct OpInfo {
    const char* name;
    Factory f;
    uint32_t attr;
};
typedef void (*Register)(const OpInfo*, int n);
extern "C" typedef void (*sim_catalogue_fn)(Register);

}  // namespace sim
