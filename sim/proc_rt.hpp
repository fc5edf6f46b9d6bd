// State of the process around a call: what is put there before it, what must
// be the same afterwards, and stand-ins for the functions that would leave
// something behind (included by simrt.cpp).
#include <cfenv>
#include <clocale>
#include <iostream>
#include <locale>
#include <streambuf>

namespace sim {
static void proc_trace(const char* what, bool during = true)
{
    SimThread* t = self;
    if (!t || !t->inv) return;
    SimThread* sv = cur;
    cur = nullptr;
    InvRes* r = t->inv->r;
    bool dup = false;
    for (uint32_t i = 0; i < r->nviol; ++i) dup |= r->viol[i].kind == V_PROC && !strncmp(r->viol[i].proc, what, sizeof r->viol[i].proc - 1);
    if (!dup && r->nviol < 12) {
        addviol(t, V_PROC, 0, t->clock, during && t->depth > 0 && t->depth <= 256 ? t->cs[t->depth - 1] : nullptr);
        Viol& v = r->viol[r->nviol - 1];
        snprintf(v.proc, sizeof v.proc, "%s", what);
        strcpy(v.oper, "-");
        if (!during || !strcmp(v.where, "?")) v.where[0] = 0;
    }
    cur = sv;
}
// standard output of the call; warnings of the library are one line "[code] text" on std::cerr
struct Sink : std::streambuf {
    bool err;
    char line[8];
    size_t col = 0;
    explicit Sink(bool e) : err(e) {}
    void put(const char* s, size_t n)
    {
        if (!self || !self->inv || !n) return;
        self->inv->r->nout += (uint32_t)n;
        if (!err) { proc_trace("writes to the standard output"); return; }
        for (size_t i = 0; i < n; ++i) {
            if (col == 0 && s[i] != '[' && s[i] != '\n') proc_trace("writes to the standard error stream");
            col = s[i] == '\n' ? 0 : col + 1;
        }
    }
    int overflow(int c) override { char ch = (char)c; if (c != EOF) put(&ch, 1); return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { put(s, (size_t)n); return n; }
};
static std::streambuf* proc_out[3];
static void proc_streams()
{
    static Sink so(false), se(true);
    proc_out[0] = std::cout.rdbuf(&so);
    proc_out[1] = std::cerr.rdbuf(&se);
    proc_out[2] = std::clog.rdbuf(&se);
}
static uint16_t x87cw() { uint16_t c; __asm__ volatile("fnstcw %0" : "=m"(c)); return c; }
struct ProcState {
    uint32_t mxcsr;
    uint16_t cw;
    std::ios_base::fmtflags fl[2];
    std::streamsize prec[2], width[2];
    std::ios_base::iostate exc[2];
    char fill[2];
    std::terminate_handler th;
    std::new_handler nh;
    struct sigaction sa[5];
    sigset_t mask;
    char loc[64];
    uint64_t envhash;
};
static const int procsig[5] = {SIGFPE, SIGINT, SIGTERM, SIGSEGV, SIGABRT};
static void proc_take(ProcState& p)
{
    memset((void*)&p, 0, sizeof p);
    p.mxcsr = __builtin_ia32_stmxcsr() & ~0x3fu;
    p.cw = x87cw();
    std::ios* io[2] = {&std::cout, &std::cerr};
    for (int i = 0; i < 2; ++i) {
        p.fl[i] = io[i]->flags();
        p.prec[i] = io[i]->precision();
        p.width[i] = io[i]->width();
        p.exc[i] = io[i]->exceptions();
        p.fill[i] = io[i]->fill();
    }
    p.th = std::get_terminate();
    p.nh = std::get_new_handler();
    for (int i = 0; i < 5; ++i) sigaction(procsig[i], nullptr, &p.sa[i]);
    pthread_sigmask(SIG_SETMASK, nullptr, &p.mask);
    snprintf(p.loc, sizeof p.loc, "%s", setlocale(LC_ALL, nullptr));
    uint64_t h = 1;
    for (char** e = environ; e && *e; ++e) { for (char* c = *e; *c; ++c) h = h * 1099511628211ull + (uint8_t)*c; h = mix(h, 7); }
    p.envhash = h;
}
// the caller's settings, derived from the environment of the scenario
static void proc_setup(uint64_t p)
{
    static const int rm[4] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
    if (p & 4) std::fesetround(rm[p & 3]);
    if ((p >> 3 & 3) == 3) __builtin_ia32_ldmxcsr(__builtin_ia32_stmxcsr() | 0x8040);
    std::cout.precision(3 + (p >> 5 & 15));
    if (p >> 9 & 1) std::cout.setf(std::ios::scientific);
    if (p >> 10 & 1) std::cout.setf(std::ios::hex, std::ios::basefield);
    std::cout.fill(p >> 11 & 1 ? '*' : ' ');
    if (p >> 12 & 1) std::set_new_handler([]() { throw std::bad_alloc(); });
}
static void proc_compare(const ProcState& a, const ProcState& b)
{
    if ((a.mxcsr ^ b.mxcsr) & 0x6000 || (a.cw ^ b.cw) & 0xc00) proc_trace("rounding mode of the thread changed", false);
    if ((a.mxcsr ^ b.mxcsr) & ~0x6000u || (a.cw ^ b.cw) & ~0xc00) proc_trace("floating-point control of the thread changed (traps, flush to zero or precision)", false);
    for (int i = 0; i < 2; ++i)
        if (a.fl[i] != b.fl[i] || a.prec[i] != b.prec[i] || a.width[i] != b.width[i] || a.exc[i] != b.exc[i] || a.fill[i] != b.fill[i]) proc_trace(i ? "format of std::cerr changed" : "format of std::cout changed", false);
    if (a.th != b.th) proc_trace("terminate handler changed", false);
    if (a.nh != b.nh) proc_trace("new handler changed", false);
    for (int i = 0; i < 5; ++i)
        if (a.sa[i].sa_handler != b.sa[i].sa_handler || a.sa[i].sa_flags != b.sa[i].sa_flags) proc_trace("signal handler changed", false);
    if (memcmp(&a.mask, &b.mask, 8)) proc_trace("signal mask changed", false);
    if (strcmp(a.loc, b.loc)) proc_trace("locale changed", false);
    if (a.envhash != b.envhash) proc_trace("environment variables changed", false);
}
}  // namespace sim

extern "C" {
using namespace sim;
int __wrap_printf(const char*, ...) { proc_trace("writes to the standard output"); return 0; }
int __wrap_vprintf(const char*, va_list) { proc_trace("writes to the standard output"); return 0; }
int __wrap_puts(const char*) { proc_trace("writes to the standard output"); return 1; }
int __wrap_putchar(int c) { proc_trace("writes to the standard output"); return c; }
int __wrap_fprintf(FILE*, const char*, ...) { proc_trace("writes to a stdio stream"); return 0; }
int __wrap_vfprintf(FILE*, const char*, va_list) { proc_trace("writes to a stdio stream"); return 0; }
int __wrap_fputs(const char*, FILE*) { proc_trace("writes to a stdio stream"); return 1; }
int __wrap_fputc(int c, FILE*) { proc_trace("writes to a stdio stream"); return c; }
int __wrap_putc(int c, FILE*) { proc_trace("writes to a stdio stream"); return c; }
size_t __wrap_fwrite(const void*, size_t, size_t n, FILE*) { proc_trace("writes to a stdio stream"); return n; }
ssize_t __wrap_write(int, const void*, size_t n) { proc_trace("writes to a file descriptor"); return (ssize_t)n; }
void __wrap_perror(const char*) { proc_trace("writes to the standard error stream"); }
void __wrap_srand(unsigned) { proc_trace("reseeds rand()"); }
void __wrap_srandom(unsigned) { proc_trace("reseeds random()"); }
int __wrap_system(const char*) { proc_trace("starts a program"); return -1; }
int __wrap_atexit(void (*)(void)) { proc_trace("registers an exit function"); return 0; }
void __wrap_exit(int) { if (self || building) child_exit(V_ABORT, 0, "exit() called"); _exit(9); }
void __wrap__exit(int) { if (self || building) child_exit(V_ABORT, 0, "_exit() called"); _exit(9); }
void __wrap__Exit(int) { if (self || building) child_exit(V_ABORT, 0, "_Exit() called"); _exit(9); }
void __wrap_quick_exit(int) { if (self || building) child_exit(V_ABORT, 0, "quick_exit() called"); _exit(9); }
void __wrap_abort() { if (self || building) child_exit(V_ABORT, SIGABRT, "abort() called"); abort(); }
// files, also through std::fstream (the symbol is resolved here for libstdc++ too)
FILE* fopen(const char* n, const char* m)
{
    static FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    if (cur) { proc_trace("opens a file"); errno = EACCES; return nullptr; }
    return real(n, m);
}
FILE* fopen64(const char* n, const char* m)
{
    static FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
    if (cur) { proc_trace("opens a file"); errno = EACCES; return nullptr; }
    return real(n, m);
}
}
