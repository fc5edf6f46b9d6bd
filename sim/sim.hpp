// Exe-side structures: scenarios, results, simulated execution.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include "simrt.hpp"

namespace sim {

enum FKind { FK_SWITCH = 1, FK_ALLOC = 2, FK_CORRUPT = 3, FK_MUTATE = 4, FK_ENTROPY = 5, FK_ARITH = 6, FK_TASK = 7, FK_TEAM = 8, FK_N = 9 };
inline const char* fkname(int k)
{
    static const char* n[] = {"none", "switch", "allocfail", "corrupt", "mutate", "entropyfail", "arithfail", "taskdelay", "teamswitch"};
    return n[k];
}
struct Event {
    int kind = 0;
    uint64_t at = 0;   // clock of the invocation (switch/corrupt/mutate); ordinal (alloc, arith, entropy)
    int64_t a = 0;     // switch: target slot; alloc: 0 once, 1 persistent; corrupt: operand
    int64_t b = 0;     // corrupt: element (component index)
    uint64_t v = 0;    // corrupt: value code / mutate seed
};
struct OpInv {
    std::string op;
    uint64_t seed = 1;
    int size = 6;
    int variant = 0;
    int share = -1;    // share read-only operands with (slot share, same op index)
    std::vector<Event> ev;
};
struct Env {
    uint64_t garbage = 1;
    int gmode = 0;   // heap/stack/out fill: 0 zero 1 random bits 2 all-ones(NaN) 3 finite random 4 large 5 mixed
    int omode = 0;   // initial contents of output-only operands and workspaces
    int nmode = 0;   // NOREF fill mode, same codes
    uint64_t place = 0;
    uint64_t entropy = 1;
    uint64_t time = 1;
    uint64_t proc = 0; // the caller's process settings (rounding mode, stream formats ...); 0: default
};
struct Scenario {
    std::string check;
    uint64_t seed = 0;
    std::string mode;  // check specific sub-mode
    Env env, env2;     // env2: the environment of the comparison run, when used
    int first = 0;
    std::vector<std::vector<OpInv>> slots;
};

enum Status { ST_NONE = 0, ST_OK = 1, ST_BADALLOC = 2, ST_DOMAIN = 3, ST_RUNTIME = 4, ST_EXC = 5, ST_UNKNOWN = 6, ST_SIMFAULT = 7 };
inline const char* stname(int s)
{
    static const char* n[] = {"not-run", "ok", "bad_alloc", "domain_error", "runtime_error", "other std::exception", "unknown exception", "injected arithmetic fault"};
    return n[s];
}
enum VK { V_WRITE_IN = 1, V_WRITE_NOREF, V_STRAY_W, V_STRAY_R, V_FREED, V_BADFREE, V_FINAL_IN, V_FINAL_NOREF, V_HANG, V_TERMINATE, V_SIGNAL, V_ABORT, V_DEADLOCK, V_OTHER_SLOT, V_TIMEOUT, V_ST_RULE, V_ST_FOOT, V_RACE, V_ST_ACQ, V_PROC };
struct Viol {
    int kind;
    char oper[16];
    int64_t elem;
    uint64_t clock;
    char where[200];
    char proc[80];   // V_PROC: what was left behind
};
struct OperRes {
    Operand o;
    uint64_t img, cls;  // offsets in buffer of image and class map
};
struct FW { uint64_t clock; uint64_t addr; };
struct InvRes {
    int status;       // Status
    int started;
    int64_t ret;
    uint64_t clock;   // steps used
    uint32_t ntask, nregion, nrace, nalloc, nfail, narith, nentropy, fired[FK_N];
    int64_t live;     // live blocks at the end
    uint64_t livebytes;
    uint32_t flags;
    uint32_t nout;    // bytes the call wrote to standard streams (kept from them)
    uint32_t preread; // the element to be corrupted was used before
    char what[120];
    uint32_t nviol;
    Viol viol[12];
    uint32_t nfw, totfw;
    FW fw[512];
    uint32_t noper;
    OperRes oper[40];
    uint64_t entries[64]; // clocks of some function entries (sampled)
    uint32_t nentries;
    uint32_t nasite, asite[128];   // allocation requests: first ordinal per distinct call path
    uint32_t nfsite, fsite[128];   // arithmetic of the number type, the same
};
constexpr int MAXSLOT = 4, MAXOP = 8;
struct ChildRes {
    int finished;
    int crashed;     // signal
    int crashslot, crashop;
    char crashwhere[256];
    int crashkind;   // VK
    uint64_t used;   // bytes used in the data buffer
    uint32_t nswitch;
    uint64_t schedhash;
    uint64_t probes[64];
    InvRes inv[MAXSLOT][MAXOP];
};

struct RunResult {
    ChildRes* c = nullptr;
    const char* data = nullptr;
};

const std::vector<OpInfo>& ops();
const OpInfo* findop(const std::string& n);
void load_libs(const std::string& csv);
void sim_init();
// Executes the scenario in a forked child; returns false if the harness itself failed.
bool execute(const Scenario& sc, const Env& env, std::vector<char>& store, uint64_t budget = 0);
inline ChildRes* res(std::vector<char>& s) { return (ChildRes*)s.data(); }
inline const char* data(const std::vector<char>& s) { return s.data() + sizeof(ChildRes); }
std::string demangle(const char*);
}  // namespace sim
