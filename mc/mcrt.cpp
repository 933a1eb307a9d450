// libmcrt.so: stateless model checker runtime.
//
// The program under test runs unmodified on fibers inside one OS thread.  pthread mutexes, rwlocks, condition
// variables, thread create/join, once/static guards, the C++ clocks and (through -fsanitize=thread instrumentation with
// the __tsan_* entry points defined here) every plain memory access and every std::atomic operation are intercepted.
//  - every blocking/synchronising operation is a scheduling point; the explorer enumerates all choices depth-first by
//    re-execution and prunes states whose happens-before history was reached before;
//  - plain accesses feed a vector-clock race detector with freed-memory tracking over a bump arena that replaces
//    operator new/delete (nothing is reused inside an execution);
//  - the program's writable data and the arena are restored before each execution, so executions are independent.
#include "mc.h"
#include <cmath>
#include <pthread.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <sched.h>
#include <execinfo.h>
#include <chrono>
#include <exception>
#include <new>
#include <typeinfo>
#include <unordered_set>
#include <unordered_map>
#include <string>
#include <vector>
#include <cxxabi.h>

extern "C" char __libc_single_threaded;

namespace {

// ---------------------------------------------------------------- allocation for the runtime itself: plain malloc
template <class T> struct MA {
    using value_type = T;
    MA() = default;
    template <class U> MA(const MA<U>&) {}
    T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { free(p); }
    template <class U> bool operator==(const MA<U>&) const { return true; }
};
template <class T> using Vec = std::vector<T, MA<T>>;
using Str = std::basic_string<char, std::char_traits<char>, MA<char>>;
struct IdHash { size_t operator()(uint64_t x) const { return x; } };

constexpr int MAXT = 12;
constexpr size_t STACK = 512 * 1024;
constexpr size_t ARENA = 96ull << 20;
constexpr uint32_t FREED = 0xFFFFFFFFu;
constexpr uint32_t SHARED_BIT = 0x80000000u;

struct VC { uint32_t c[MAXT]; };
inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15F39CC060ull + (a << 6) + (a >> 3));
    x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32;
    return x;
}

enum Op : int { OP_START = 1, OP_LOCK, OP_UNLOCK, OP_CVWAIT, OP_NOTIFY1, OP_NOTIFYA, OP_CREATE, OP_JOIN, OP_EXIT,
    OP_ATOMIC, OP_YIELD, OP_TRYLOCK, OP_RDLOCK, OP_WRLOCK, OP_TOUCH, OP_POINT, OP_CLOCK, OP_CHOICE };
const char* opname(int o) {
    static const char* n[] = {"?","start","lock","unlock","cond_wait","notify_one","notify_all","create","join","exit",
        "atomic","yield","trylock","rdlock","wrlock","touch","point","clock","choice"};
    return n[o];
}

struct Obj {
    uintptr_t addr; uint32_t gen;
    uint64_t id, h;
    int owner;       // mutex/wrlock owner or -1
    int depth;       // recursion / reader count
    VC vc;           // release clock
    VC rvc;          // rwlock: readers' release clock
};

enum St : int { ST_RUNNABLE, ST_WAITCV, ST_DONE };

struct TlsDtor { void (*fn)(void*); void* obj; };

struct Fiber {
    void* sp;
    char* stack;
    int tid;
    St st;
    int op; Obj* obj; int jointid; int want_read;
    Obj* cv; Obj* cvm; bool notified, timed, timedout; double deadline; int saved_depth;
    uint64_t h, canon;
    VC vc;
    void* (*fn)(void*); void* arg; void* ret;
    bool detached, joined;
    bool yielding;
    unsigned long long eh[2];          // __cxa_eh_globals
    char* tls;
    Vec<TlsDtor>* dtors;
    int consecutive;
};

struct Choice { int n, c, kind; };

// ---------------------------------------------------------------- global state
Fiber* F[MAXT];
int nfib;
Fiber* cur;
void* main_sp;
unsigned long long main_eh[2];
bool in_exec;
uint32_t exec_gen;

Vec<Choice>* path;
size_t path_idx;
size_t replay_len;

McOptions opt;
McResult* res;
bool replaying, verbose;
long steps, transitions_new;
int preemptions, spurious_used, timeouts_used;
bool bound_hit;
bool aborted; bool violated; char viol_msg[4000];
bool saw_trylock, unlock_points;
int ghost_depth;
long race_accesses;
int max_threads;

double clk_now, clk_tick, clk_jump; int clk_jumps; long clk_reads;
double clk_last[16]; long clk_nread[16]; double clk_hist[16][256];
double clk0_now, clk0_tick, clk0_jump; int clk0_jumps;

char* arena; size_t bump, arena_persist; long live_allocs;
uint32_t *shW, *shR;       // per byte shadow for arena + data segment + stacks (accesses by other threads than the owner)
char* stacks;              // the threads' stacks, one slot (guard page + STACK) each
size_t stack_shadow;       // index of the first stack byte in the shadow
Vec<size_t>* stack_touched; uintptr_t stk_lo[MAXT], stk_hi[MAXT];   // touched by others: bounds per stack
void** shPC;               // only when replaying
uintptr_t data_lo, data_hi;
size_t shadow_bytes;
char* data_copy; char* arena_copy;
long live_persist;
size_t arena_high;
char* tls_addr; size_t tls_size; char* tls_init;

struct RVC { VC vc; };
Vec<RVC>* rvcs;

constexpr size_t OBJTAB = 1 << 19;
Obj* objtab;

std::unordered_set<uint64_t, IdHash, std::equal_to<uint64_t>, MA<uint64_t>>* seen;
std::unordered_map<uint64_t, int, IdHash, std::equal_to<uint64_t>, MA<std::pair<const uint64_t, int>>>* seenp;
std::unordered_set<uint64_t, IdHash, std::equal_to<uint64_t>, MA<uint64_t>>* outc;
Vec<Str>* outc_samples;
Vec<Str>* notes;
Vec<Str>* sample_traces;
std::unordered_map<uint64_t, bool, IdHash, std::equal_to<uint64_t>, MA<std::pair<const uint64_t, bool>>>* vtab;


extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.hidden mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

unsigned long long* eh_globals() { return (unsigned long long*)abi::__cxa_get_globals(); }

[[noreturn]] void to_main() {
    in_exec = false;
    unsigned long long* g = eh_globals();
    g[0] = main_eh[0]; g[1] = main_eh[1];
    void* dummy;
    mc_switch(&dummy, main_sp);
    __builtin_unreachable();
}

void note_str(const char* s) { if (notes->size() < 400) notes->push_back(Str(s)); }

const char* sym(void* pc) {
    static char buf[8][300]; static int k;
    char* b = buf[k++ & 7];
    Dl_info di;
    if (dladdr(pc, &di) && di.dli_sname) {
        int st; char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        snprintf(b, 300, "%s+%#lx", d ? d : di.dli_sname, (long)((char*)pc - (char*)di.dli_saddr));
        free(d);
    } else snprintf(b, 300, "%p(+%#lx)", pc, di.dli_fbase ? (long)((char*)pc - (char*)di.dli_fbase) : 0L);
    return b;
}

[[noreturn]] void fail_now(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(viol_msg, sizeof viol_msg, fmt, ap);
    va_end(ap);
    violated = true;
    if (!in_exec) { fprintf(stderr, "mcrt: failure outside an execution: %s\n", viol_msg); _exit(4); }
    to_main();
}

[[noreturn]] void hard_error(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "mcrt: internal: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    va_end(ap);
    _exit(5);
}

void trace(const char* what, Obj* o, void* pc) {
    if (!verbose || !cur) return;
    fprintf(stderr, "  [%4ld] T%d %-10s %s%#lx%s%s\n", steps, cur->tid, what, o ? "obj " : "", o ? (long)(o->id & 0xffffff) : 0L,
            pc ? "  at " : "", pc ? sym(pc) : "");
}

// ---------------------------------------------------------------- choices
int choose(int n, int kind) {
    if (n <= 0) hard_error("choose(%d)", n);
    if (n == 1) return 0;
    if (path_idx < path->size()) {
        Choice& c = (*path)[path_idx];
        if (c.n != n || c.kind != kind) {
            fprintf(stderr, "mcrt: DIVERGENCE at choice %zu: recorded n=%d kind=%s, now n=%d kind=%s\n", path_idx, c.n,
                    opname(c.kind), n, opname(kind));
            _exit(6);
        }
        path_idx++;
        return c.c;
    }
    if (replaying) { // past the recorded trace: continue with defaults
        path->push_back({n, 0, kind}); path_idx++; return 0;
    }
    path->push_back({n, 0, kind}); path_idx++;
    res->choice_points++;
    return 0;
}

// ---------------------------------------------------------------- objects
Obj* getobj(const void* p, bool named = true) {
    uintptr_t a = (uintptr_t)p;
    size_t i = (a * 0x9E3779B97F4A7C15ull >> 20) & (OBJTAB - 1);
    for (size_t k = 0; k < OBJTAB; k++, i = (i + 1) & (OBJTAB - 1)) {
        Obj& o = objtab[i];
        if (o.gen != exec_gen) {
            memset(&o, 0, sizeof o);
            o.addr = a; o.gen = exec_gen; o.owner = -1;
            // named by the first user's history: identical in all interleavings with the same happens-before order
            o.id = cur ? mix(mix(cur->h, 0x0b1ec7), cur->canon) : a;
            o.h = o.id;
            if (cur && named) cur->h = mix(cur->h, 0xf1257);
            return &o;
        }
        if (o.addr == a) return &o;
    }
    hard_error("object table full");
}

void stamp(Obj* o, int op) {            // op by cur on o, ordered with all other ops on o
    cur->h = mix(mix(cur->h, op * 1315423911ull), mix(o->id, o->h));
    o->h = cur->h;
}
void acq(Obj* o) { vjoin(cur->vc, o->vc); }
void rel(Obj* o) { vjoin(o->vc, cur->vc); cur->vc.c[cur->tid]++; }

// ---------------------------------------------------------------- scheduling
bool enabled(Fiber* f) {
    switch (f->st) {
        case ST_DONE: return false;
        case ST_WAITCV: return f->notified && f->cvm->owner == -1;
        case ST_RUNNABLE:
            if (f->op == OP_LOCK || f->op == OP_WRLOCK) return f->obj->owner == -1 && f->obj->depth == 0;
            if (f->op == OP_RDLOCK) return f->obj->owner == -1;
            if (f->op == OP_JOIN) return F[f->jointid]->st == ST_DONE;
            return true;
    }
    return false;
}

void describe_blocked(char* b, size_t n) {
    size_t k = 0;
    for (int i = 0; i < nfib && k + 200 < n; i++) {
        Fiber* f = F[i];
        if (f->st == ST_DONE) { k += snprintf(b + k, n - k, " T%d:finished", i); continue; }
        if (f->st == ST_WAITCV)
            k += snprintf(b + k, n - k, " T%d:%s", i, f->notified ? "woken but its mutex is held" : "waiting on condition variable");
        else if (f->op == OP_JOIN) k += snprintf(b + k, n - k, " T%d:joining T%d", i, f->jointid);
        else if (f->op == OP_LOCK || f->op == OP_WRLOCK || f->op == OP_RDLOCK)
            k += snprintf(b + k, n - k, " T%d:blocked on a lock held by T%d", i, f->obj->owner);
        else k += snprintf(b + k, n - k, " T%d:%s", i, opname(f->op));
    }
}

uint64_t state_key() {
    uint64_t k = 0;
    for (int i = 0; i < nfib; i++) k += mix(F[i]->h, F[i]->canon + F[i]->st);
    uint64_t cb; double t = clk_now; memcpy(&cb, &t, 8);
    k = mix(k, cb); k = mix(k, clk_jumps); k = mix(k, spurious_used * 64 + timeouts_used);
    return k;
}

void swap_to(Fiber* f) {
    if (f == cur) return;
    Fiber* old = cur;
    unsigned long long* g = eh_globals();
    old->eh[0] = g[0]; old->eh[1] = g[1];
    if (tls_size) { memcpy(old->tls, tls_addr, tls_size); memcpy(tls_addr, f->tls, tls_size); }
    cur = f;
    g[0] = f->eh[0]; g[1] = f->eh[1];
    mc_switch(&old->sp, f->sp);
}

void schedule() {
    steps++;
    if (steps > opt.step_limit) {
        char b[1500]; describe_blocked(b, sizeof b);
        fail_now("no termination within %ld scheduling points (livelock or runaway waiting):%s", opt.step_limit, b);
    }
    struct Cand { Fiber* f; int mode; };
    Cand cand[3 * MAXT]; int n = 0;
    bool cur_en = enabled(cur);
    bool force = cur->yielding || cur->consecutive > 2000;
    if (cur_en && !force) cand[n++] = {cur, 0};
    for (int i = 0; i < nfib; i++) if (F[i] != cur && enabled(F[i])) cand[n++] = {F[i], 0};
    if (cur_en && force) { if (n == 0) cand[n++] = {cur, 0}; }
    // timed waits: time passes when nothing else can run, or (budgeted) at any moment
    for (int i = 0; i < nfib; i++) {
        Fiber* f = F[i];
        if (f->st == ST_WAITCV && !f->notified && f->timed && f->cvm->owner == -1 && (n == 0 || timeouts_used < opt.timeout_budget))
            cand[n++] = {f, 1};
    }
    for (int i = 0; i < nfib; i++) {
        Fiber* f = F[i];
        if (f->st == ST_WAITCV && !f->notified && f->cvm->owner == -1 && n > 0 && spurious_used < opt.spurious_budget)
            cand[n++] = {f, 2};
    }
    if (n == 0) {
        bool all = true;
        for (int i = 0; i < nfib; i++) if (F[i]->st != ST_DONE) all = false;
        if (all) to_main();
        char b[1500]; describe_blocked(b, sizeof b);
        fail_now("deadlock: no thread can make progress:%s", b);
    }
    if (!replaying && opt.use_cache && path_idx >= replay_len) {
        uint64_t k = state_key();
        if (opt.preemption_bound < 0) {
            if (!seen->insert(k).second) { aborted = true; to_main(); }
        } else {
            k = mix(k, cur->canon + (cur_en ? 1 : 0));
            auto it = seenp->find(k);
            if (it != seenp->end() && it->second <= preemptions) { aborted = true; to_main(); }
            (*seenp)[k] = preemptions;
        }
        transitions_new++;
    }
    int lim = n;
    if (opt.preemption_bound >= 0 && cur_en && !force && preemptions >= opt.preemption_bound) { if (n > 1) bound_hit = true; lim = 1; }
    int c = choose(lim, OP_POINT);
    Fiber* f = cand[c].f;
    if (cand[c].mode == 1) { f->notified = true; f->timedout = true; if (n > 1 || c > 0) timeouts_used++; if (clk_now < f->deadline) clk_now = f->deadline; f->h = mix(f->h, 0x71e0); }
    if (cand[c].mode == 2) { f->notified = true; spurious_used++; f->h = mix(f->h, 0x5b0); if (verbose) fprintf(stderr, "         spurious wake-up of T%d\n", f->tid); }
    if (cur_en && !force && f != cur) preemptions++;
    cur->yielding = false;
    if (f == cur) cur->consecutive++; else f->consecutive = 0;
    swap_to(f);
}

void point(int op, Obj* o) {
    cur->op = op; cur->obj = o;
    schedule();
    if (!o) cur->h = mix(cur->h, 0x9017 + op);     // every point advances the history of its thread
}

void fiber_main() {
    Fiber* f = cur;
    f->h = mix(f->h, OP_START);
    try {
        f->ret = f->fn(f->arg);
    } catch (std::exception& e) {
        fail_now("uncaught exception in thread T%d: %s: %s", f->tid, typeid(e).name(), e.what());
    } catch (...) {
        fail_now("uncaught exception of unknown type in thread T%d", f->tid);
    }
    while (!f->dtors->empty()) { TlsDtor d = f->dtors->back(); f->dtors->pop_back(); d.fn(d.obj); }
    trace("exit", nullptr, nullptr);
    f->h = mix(f->h, OP_EXIT);
    f->st = ST_DONE;
    schedule();
    hard_error("finished fiber resumed");
}

Fiber* new_fiber(void* (*fn)(void*), void* arg) {
    if (nfib >= MAXT) hard_error("too many threads in one execution (max %d)", MAXT);
    Fiber* f = F[nfib];
    if (!f) {
        f = (Fiber*)calloc(1, sizeof(Fiber));
        if (!stacks) stacks = (char*)mmap(nullptr, (STACK + 4096) * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        char* m = stacks + (size_t)nfib * (STACK + 4096);
        mprotect(m, 4096, PROT_NONE);
        f->stack = m + 4096;
        f->tls = (char*)malloc(tls_size + 16);
        f->dtors = new (malloc(sizeof(Vec<TlsDtor>))) Vec<TlsDtor>();
        F[nfib] = f;
    }
    char* st = f->stack; char* tls = f->tls; auto* d = f->dtors;
    memset((void*)f, 0, sizeof *f);
    f->stack = st; f->tls = tls; f->dtors = d; d->clear();
    if (tls_size) memcpy(tls, tls_init, tls_size);
    f->tid = nfib++;
    if (nfib > max_threads) max_threads = nfib;
    f->fn = fn; f->arg = arg; f->op = OP_START; f->st = ST_RUNNABLE;
    uintptr_t top = ((uintptr_t)st + STACK) & ~15ull;
    void** sp = (void**)top;
    *--sp = nullptr;               // alignment: entry sees rsp % 16 == 8
    *--sp = (void*)fiber_main;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    f->sp = sp;
    return f;
}

void unlock_obj(Obj* o, void* pc) {
    trace("unlock", o, pc);
    stamp(o, OP_UNLOCK);
    rel(o);
    o->owner = -1; o->depth = 0;
    if (unlock_points) point(OP_POINT, nullptr);
}

void lock_obj(Obj* o, bool recursive, void* pc) {
    if (recursive && o->owner == cur->tid) { o->depth++; return; }
    point(OP_LOCK, o);
    cur->op = OP_POINT;
    o->owner = cur->tid; o->depth = 1;
    stamp(o, OP_LOCK);
    acq(o);
    trace("lock", o, pc);
}

bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, double deadline, void* pc) {
    Obj* o = getobj(c); Obj* mo = getobj(m);
    if (mo->owner != cur->tid) fail_now("condition wait with a mutex the thread does not hold");
    trace("cond_wait", o, pc);
    point(OP_CVWAIT, o);
    stamp(o, OP_CVWAIT);
    int depth = mo->depth;
    stamp(mo, OP_UNLOCK); rel(mo); mo->owner = -1; mo->depth = 0;
    cur->st = ST_WAITCV; cur->cv = o; cur->cvm = mo; cur->notified = false; cur->timed = timed; cur->timedout = false;
    cur->deadline = deadline;
    schedule();
    cur->st = ST_RUNNABLE; cur->op = OP_POINT;
    mo->owner = cur->tid; mo->depth = depth;
    stamp(mo, OP_LOCK); acq(mo);
    trace(cur->timedout ? "timeout" : "wakeup", o, pc);
    return cur->timedout ? ETIMEDOUT : 0;
}

void wake(Fiber* f, Obj* o) { f->notified = true; f->h = mix(f->h, mix(o->h, 0x3a6e)); }

// ---------------------------------------------------------------- race detector
inline bool shadow_index(uintptr_t a, size_t& i) {
    uintptr_t b = (uintptr_t)arena;
    if (a - b < ARENA) { i = a - b; return true; }
    if (a - data_lo < data_hi - data_lo) { i = ARENA + (a - data_lo); return true; }
    return false;
}
// Variables on a stack: accesses of other threads are recorded and checked; those of the owner are checked against them.
__attribute__((noinline)) void stack_access(uintptr_t a, size_t n, bool w, void* pc);
inline bool on_stack(uintptr_t a) { return a - (uintptr_t)stacks < (STACK + 4096) * MAXT; }
inline uint32_t ep(int tid, uint32_t clk) { return ((uint32_t)tid << 26) | (clk & 0x3FFFFFFu); }   // bit31 free for SHARED
inline int ep_tid(uint32_t e) { return (e >> 26) & 31; }
inline uint32_t ep_clk(uint32_t e) { return e & 0x3FFFFFFu; }
inline bool ep_ok(uint32_t e) { return e == 0 || ep_clk(e) <= cur->vc.c[ep_tid(e)]; }

[[noreturn]] void race(const char* what, uintptr_t a, size_t i, int other, void* pc) {
    const char* prev = shPC && shPC[i] ? sym(shPC[i]) : nullptr;
    fail_now("data race: %s by T%d is not ordered with an earlier access by T%d (at %s%s%s)", what, cur->tid, other,
             sym(pc), prev ? "; earlier access at " : "", prev ? prev : "");
}

void check_record(uintptr_t a, size_t i0, size_t n, bool w, void* pc);
__attribute__((noinline)) void access_slow(uintptr_t a, size_t n, bool w, void* pc) {
    size_t i0;
    if (!shadow_index(a, i0)) return;
    check_record(a, i0, n, w, pc);
}
void stack_access(uintptr_t a, size_t n, bool w, void* pc) {
    size_t off = a - (uintptr_t)stacks, i0 = stack_shadow + off;
    if (off + n > (STACK + 4096) * MAXT) return;
    if ((int)(off / (STACK + 4096)) != cur->tid) {
        int o = (int)(off / (STACK + 4096));
        for (size_t k = 0; k < n; k++) if (!shW[i0 + k] && !shR[i0 + k]) stack_touched->push_back(i0 + k);
        if (!stk_hi[o] || a < stk_lo[o]) stk_lo[o] = a;
        if (a + n > stk_hi[o]) stk_hi[o] = a + n;
        check_record(a, i0, n, w, pc);
        return;
    }
    if (!opt.race_check || a + n <= stk_lo[cur->tid] || a >= stk_hi[cur->tid]) return;
    for (size_t k = 0; k < n; k++) {
        uint32_t W = shW[i0 + k], R = shR[i0 + k];
        if (!W && !R) continue;
        if (!ep_ok(W)) race(w ? "write after write" : "read after write", a + k, i0 + k, ep_tid(W), pc);
        if (w && R) {
            if (R & SHARED_BIT) { VC& v = (*rvcs)[R & ~SHARED_BIT].vc; for (int t = 0; t < nfib; t++) if (v.c[t] > cur->vc.c[t]) race("write after read", a + k, i0 + k, t, pc); }
            else if (!ep_ok(R)) race("write after read", a + k, i0 + k, ep_tid(R), pc);
        }
    }
}
void check_record(uintptr_t a, size_t i0, size_t n, bool w, void* pc) {
    race_accesses++;
    uint32_t me = ep(cur->tid, cur->vc.c[cur->tid]);
    for (size_t k = 0; k < n; k++) {
        size_t i = i0 + k;
        uint32_t W = shW[i];
        if (W == FREED) fail_now("use after free: %s of released memory at %s", w ? "write" : "read", sym(pc));
        if (W != me && !ep_ok(W) && opt.race_check) race(w ? "write after write" : "read after write", a + k, i, ep_tid(W), pc);
        uint32_t R = shR[i];
        if (w) {
            if (R && R != me && opt.race_check) {
                if (R & SHARED_BIT) {
                    VC& v = (*rvcs)[R & ~SHARED_BIT].vc;
                    for (int t = 0; t < nfib; t++) if (v.c[t] > cur->vc.c[t]) race("write after read", a + k, i, t, pc);
                } else if (!ep_ok(R)) race("write after read", a + k, i, ep_tid(R), pc);
            }
            shW[i] = me; shR[i] = 0;
        } else if (R != me) {
            if (R & SHARED_BIT) (*rvcs)[R & ~SHARED_BIT].vc.c[cur->tid] = cur->vc.c[cur->tid];
            else if (R == 0 || ep_ok(R)) shR[i] = me;
            else {
                RVC v; memset(&v, 0, sizeof v);
                v.vc.c[ep_tid(R)] = ep_clk(R); v.vc.c[cur->tid] = cur->vc.c[cur->tid];
                rvcs->push_back(v);
                shR[i] = SHARED_BIT | (uint32_t)(rvcs->size() - 1);
            }
        }
        if (shPC) shPC[i] = pc;
    }
}
inline void access(const volatile void* p, size_t n, bool w, void* pc) {
    if (!in_exec || ghost_depth || !cur) return;
    uintptr_t a = (uintptr_t)p;
    size_t i;
    if (!shadow_index(a, i)) { if (nfib > 1 && on_stack(a)) stack_access(a, n, w, pc); return; }
    // before the first thread starts every access is ordered with everything that follows
    if (nfib == 1 && shW[i] != FREED && shW[i + n - 1] != FREED) return;
    if (!shPC) {
        uint32_t me = ep(cur->tid, cur->vc.c[cur->tid]);
        bool same = true;
        if (w) { for (size_t k = 0; k < n; k++) if (shW[i + k] != me || shR[i + k]) { same = false; break; } }
        else { for (size_t k = 0; k < n; k++) if (shR[i + k] != me && !(shW[i + k] == me && shR[i + k] == 0)) { same = false; break; } }
        if (same) return;
    }
    access_slow(a, n, w, pc);
}

bool is_refcount(const volatile void* p) {
    uintptr_t g = (uintptr_t)p & ~7ull;
    if (g - (uintptr_t)arena >= ARENA || g < (uintptr_t)arena + 8) return false;
    uint64_t vptr = *(uint64_t*)(g - 8);
    auto it = vtab->find(vptr);
    if (it != vtab->end()) return it->second;
    bool r = false;
    Dl_info di;
    if (vptr > 4096 && vptr % 8 == 0 && dladdr((void*)vptr, &di)) {
        if (di.dli_sname && strncmp(di.dli_sname, "_ZTV", 4) == 0) r = strstr(di.dli_sname, "_Sp_counted") != nullptr;
        else {
            // a vtable without a dynamic symbol (internal linkage): look at its type_info
            uint64_t ti = ((uint64_t*)vptr)[-1], nm = 0; Dl_info d2;
            if (ti > 4096 && ti % 8 == 0 && dladdr((void*)ti, &d2) && d2.dli_fbase == di.dli_fbase) nm = ((uint64_t*)ti)[1];
            if (nm > 4096 && dladdr((void*)nm, &d2) && d2.dli_fbase == di.dli_fbase) r = strstr((const char*)nm, "_Sp_counted") != nullptr;
        }
    }
    (*vtab)[vptr] = r;
    return r;
}

// before an atomic op; returns object
enum { AT_LOAD, AT_STORE, AT_RMW };
Obj* atomic_pre(const volatile void* p, int kind, void* pc) {
    if (!in_exec || ghost_depth || !cur) return nullptr;
    size_t i;
    if (shadow_index((uintptr_t)p, i) && shW[i] == FREED) fail_now("use after free: atomic access to released memory at %s", sym(pc));
    if (is_refcount(p)) return nullptr;
    Obj* o = getobj((void*)p);
    point(OP_ATOMIC, o);
    stamp(o, OP_ATOMIC + kind * 97);
    trace("atomic", o, pc);
    if (shadow_index((uintptr_t)p, i) && opt.race_check) {
        if (!ep_ok(shW[i])) race("atomic access after plain write", (uintptr_t)p, i, ep_tid(shW[i]), pc);
    }
    return o;
}
void atomic_post(Obj* o, const volatile void* p, int kind, int mo, bool is_sub, uint64_t old) {
    if (!in_exec || ghost_depth || !cur) return;
    if (!o) { // reference count
        Obj* r = getobj((void*)((uintptr_t)p & ~7ull), false);
        if (kind == AT_LOAD) { if (mo >= 2) vjoin(cur->vc, r->vc); return; }
        if (is_sub) { vjoin(r->vc, cur->vc); cur->vc.c[cur->tid]++; if (old == 1) vjoin(cur->vc, r->vc); }
        else if (mo >= 2) { vjoin(cur->vc, r->vc); }
        return;
    }
    bool a = mo == 1 || mo == 2 || mo == 4 || mo == 5, r = mo == 3 || mo == 4 || mo == 5;
    if (kind != AT_STORE && a) acq(o);
    if (kind != AT_LOAD && r) rel(o);
}

// ---------------------------------------------------------------- arena
int host_mode;          // registration of configurations: constant data, kept out of the snapshot
void* arena_new(size_t n) {
    if (host_mode) { void* p = malloc(n ? n : 1); if (!p) hard_error("memory"); return p; }
    size_t need = ((n + 15) & ~15ull) + 16;
    if (bump + need > ARENA) { if (in_exec) fail_now("more than %zu MB allocated in one execution (runaway allocation)", ARENA >> 20); hard_error("arena"); }
    char* h = arena + bump; bump += need;
    *(size_t*)h = n; *(size_t*)(h + 8) = 0xA11C0DEDull;
    char* p = h + 16;
    memset(p, 0xA5, n);
    live_allocs++;
    return p;
}
void arena_del(void* p, void* pc) {
    if (!p) return;
    uintptr_t a = (uintptr_t)p;
    if (a - (uintptr_t)arena >= ARENA) { free(p); return; }
    char* h = (char*)p - 16;
    if (*(size_t*)(h + 8) == 0xDEADDEADull) { if (in_exec) fail_now("double free at %s", sym(pc)); return; }
    if (*(size_t*)(h + 8) != 0xA11C0DEDull) { if (in_exec) fail_now("free of a pointer that was never allocated at %s", sym(pc)); return; }
    *(size_t*)(h + 8) = 0xDEADDEADull;
    live_allocs--;
    size_t n = *(size_t*)h;
    if (in_exec && cur && !ghost_depth) {
        access_slow(a, n, true, pc);
        size_t i = a - (uintptr_t)arena;
        for (size_t k = 0; k < n; k++) shW[i + k] = FREED;
    }
}

int phdr_cb(struct dl_phdr_info* info, size_t, void*) {
    if (info->dlpi_name && info->dlpi_name[0]) return 0;   // main program only
    uintptr_t rl = 0, rh = 0;
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto& ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_GNU_RELRO) { rl = info->dlpi_addr + ph.p_vaddr; rh = (rl + ph.p_memsz + 4095) & ~4095ull; }
    }
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto& ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
            uintptr_t lo = info->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
            if (rh > lo && rl <= lo + 4096) lo = rh > hi ? hi : rh;
            if (hi > lo) { data_lo = lo; data_hi = hi; }
        }
        if (ph.p_type == PT_TLS && info->dlpi_tls_data) { tls_addr = (char*)info->dlpi_tls_data; tls_size = ph.p_memsz; }
    }
    return 1;
}

bool inited;
void init_rt() {
    if (inited) return;
    inited = true;
    arena = (char*)mmap((void*)0x100000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) { fprintf(stderr, "mcrt: arena mmap failed\n"); _exit(5); }
    bump = 64;
}

// ---------------------------------------------------------------- signals
long wd_last = -1; int wd_same; int wd_limit = 20;
void on_alarm(int) {
    if (!in_exec) { wd_same = 0; wd_last = -1; return; }
    long now = steps + (long)exec_gen * 1000003;
    if (now == wd_last) { if (++wd_same >= wd_limit) { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGALRM); sigprocmask(SIG_UNBLOCK, &s, nullptr);
        fail_now("thread T%d ran for %d s without reaching a synchronisation point (endless loop)", cur ? cur->tid : -1, wd_limit); } }
    else { wd_last = now; wd_same = 0; }
}
void on_crash(int sig) {
    signal(sig, SIG_DFL);
    sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr);
    if (in_exec) {
        void* bt[12]; int n = backtrace(bt, 12);
        char b[1500]; size_t k = 0; b[0] = 0;
        for (int i = 2; i < n && k + 320 < sizeof b; i++) k += snprintf(b + k, sizeof b - k, " <- %s", sym(bt[i]));
        fail_now("crash: signal %d (%s) in T%d%s", sig, strsignal(sig), cur ? cur->tid : -1, b);
    }
    raise(sig);
}
void on_terminate() {
    char what[600] = "no active exception";
    if (std::exception_ptr p = std::current_exception()) {
        try { std::rethrow_exception(p); }
        catch (std::exception& e) { snprintf(what, sizeof what, "%s", e.what()); }
        catch (...) { snprintf(what, sizeof what, "unknown exception"); }
    }
    if (in_exec) fail_now("std::terminate called in T%d: %s", cur ? cur->tid : -1, what);
    fprintf(stderr, "terminate outside execution: %s\n", what);
    _exit(4);
}

// ---------------------------------------------------------------- one execution
void* body_thunk(void* p) { ((void (*)())p)(); return nullptr; }

void run_once(void (*body)(void)) {
    exec_gen++;
    // restore program state
    if (data_copy) memcpy((void*)data_lo, data_copy, data_hi - data_lo);
    if (arena_copy) memcpy(arena, arena_copy, arena_persist);
    size_t clr = arena_high;
    memset(shW, 0, clr * 4); memset(shR, 0, clr * 4);
    memset(shW + ARENA, 0, (data_hi - data_lo) * 4); memset(shR + ARENA, 0, (data_hi - data_lo) * 4);
    for (size_t i : *stack_touched) shW[i] = shR[i] = 0;
    stack_touched->clear(); for (int i = 0; i < MAXT; i++) stk_lo[i] = stk_hi[i] = 0;
    rvcs->clear(); rvcs->push_back(RVC());
    bump = arena_persist; live_allocs = live_persist;
    nfib = 0; cur = nullptr; steps = 0; path_idx = 0; preemptions = 0; spurious_used = 0; timeouts_used = 0; aborted = false; violated = false;
    ghost_depth = 0; notes->clear();
    clk_now = clk0_now; clk_tick = clk0_tick; clk_jump = clk0_jump; clk_jumps = clk0_jumps; clk_reads = 0; for (int i = 0; i < 16; i++) { clk_last[i] = -1; clk_nread[i] = 0; }
    Fiber* f = new_fiber(body_thunk, (void*)body);
    f->h = 0x1234567; f->canon = 0xABCDEF; f->vc.c[0] = 1;
    cur = f;
    if (tls_size) memcpy(tls_addr, f->tls, tls_size);
    unsigned long long* g = eh_globals();
    main_eh[0] = g[0]; main_eh[1] = g[1];
    g[0] = g[1] = 0;
    in_exec = true;
    mc_switch(&main_sp, f->sp);
    in_exec = false;
    if (bump > arena_high) arena_high = bump;
    if (!violated && !aborted && opt.leak_check && live_allocs != live_persist) {
        violated = true;
        size_t big = 0; int cnt = 0;
        for (size_t o = arena_persist; o + 16 <= bump;) { size_t n = *(size_t*)(arena + o); if (*(size_t*)(arena + o + 8) == 0xA11C0DEDull) { cnt++; if (n > big) big = n; } o += ((n + 15) & ~15ull) + 16; }
        snprintf(viol_msg, sizeof viol_msg, "memory leak: %ld allocations are still live after everything was released (largest %zu bytes)",
                 live_allocs - live_persist, big);
    }
    cur = nullptr;
}

void setup_common() {
    static bool done;
    if (done) return;
    done = true;
    auto mk = [](auto* t) { using T = std::remove_pointer_t<decltype(t)>; return new (malloc(sizeof(T))) T(); };
    path = mk((Vec<Choice>*)0); rvcs = mk((Vec<RVC>*)0);
    seen = mk((decltype(seen))0); seenp = mk((decltype(seenp))0); outc = mk((decltype(outc))0);
    outc_samples = mk((Vec<Str>*)0); notes = mk((Vec<Str>*)0); sample_traces = mk((Vec<Str>*)0); vtab = mk((decltype(vtab))0);
    objtab = (Obj*)mmap(nullptr, OBJTAB * sizeof(Obj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_touched = mk((Vec<size_t>*)0);
    stack_shadow = ARENA + (data_hi - data_lo) + 64;
    size_t sb = stack_shadow + (STACK + 4096) * MAXT;
    shW = (uint32_t*)mmap(nullptr, sb * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shR = (uint32_t*)mmap(nullptr, sb * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow_bytes = sb;
    arena_high = bump;
    stack_t ss{}; ss.ss_sp = malloc(1 << 17); ss.ss_size = 1 << 17; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    struct sigaction al{}; al.sa_handler = on_alarm; al.sa_flags = SA_RESTART; sigaction(SIGALRM, &al, nullptr);
    struct itimerval tv{}; tv.it_interval.tv_sec = 1; tv.it_value.tv_sec = 1; setitimer(ITIMER_REAL, &tv, nullptr);
    std::set_terminate(on_terminate);
    void* bt[4]; backtrace(bt, 4);   // force libgcc load now
}

double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void write_trace(const char* file, const char* msg) {
    FILE* f = fopen(file, "w");
    if (!f) return;
    fprintf(f, "# choices: value/alternatives kind\n");
    for (size_t i = 0; i < path_idx && i < path->size(); i++) fprintf(f, "C %d %d %d\n", (*path)[i].c, (*path)[i].n, (*path)[i].kind);
    if (unlock_points) fprintf(f, "U 1\n");
    fprintf(f, "B %d\n", opt.preemption_bound);
    fprintf(f, "M %s\n", msg);
    for (auto& s : *notes) fprintf(f, "N %s\n", s.c_str());
    fclose(f);
}

} // namespace

// =================================================================== public API
extern "C" {

void mc_default_options(McOptions* o) {
    memset(o, 0, sizeof *o);
    o->preemption_bound = -1; o->step_limit = 20000; o->time_limit_s = 600; o->use_cache = 1; o->race_check = 1; o->leak_check = 1;
}

void mc_host(int on) { init_rt(); host_mode = on; }
void mc_snapshot(void) {
    dl_iterate_phdr(phdr_cb, nullptr);
    if (tls_size) { tls_init = (char*)malloc(tls_size); memcpy(tls_init, tls_addr, tls_size); }
    setup_common();
    __libc_single_threaded = 0;
    data_copy = (char*)malloc(data_hi - data_lo);
    memcpy(data_copy, (void*)data_lo, data_hi - data_lo);
    arena_persist = bump; live_persist = live_allocs;
    arena_copy = (char*)malloc(arena_persist);
    memcpy(arena_copy, arena, arena_persist);
}

void mc_explore(void (*body)(void), const McOptions* o, McResult* r, const char* trace_out) {
    opt = *o; memset(r, 0, sizeof *r); res = r;
    double t0 = wall();
restart:
    path->clear(); replay_len = 0; seen->clear(); seenp->clear(); outc->clear(); outc_samples->clear(); sample_traces->clear();
    r->executions = r->pruned = r->choice_points = 0; transitions_new = 0; race_accesses = 0; max_threads = 0; saw_trylock = false; bound_hit = false;
    for (;;) {
        run_once(body);
        r->executions++;
        if (aborted && r->executions == 1) hard_error("a state repeats within the first execution: the history hash is unsound");
        if (aborted) r->pruned++;
        if ((long)path_idx > r->max_depth) r->max_depth = path_idx;
        if (violated) {
            r->violation = 1;
            snprintf(r->message, sizeof r->message, "%s", viol_msg);
            if (trace_out) write_trace(trace_out, viol_msg);
            break;
        }
        if (saw_trylock && !unlock_points) { unlock_points = true; goto restart; }
        if (!aborted && sample_traces->size() < 3 && (r->executions == 1 || r->executions % 97 == 0)) {
            Str s; char b[32];
            for (size_t i = 0; i < path_idx && i < 60; i++) { snprintf(b, sizeof b, "%d/%d ", (*path)[i].c, (*path)[i].n); s += b; }
            if (path_idx > 60) s += "...";
            if (!notes->empty()) { s += " | "; for (size_t i = 0; i < notes->size() && i < 12; i++) { s += (*notes)[i]; s += "; "; } }
            sample_traces->push_back(s);
        }
        // next
        path->resize(path_idx);
        while (!path->empty() && path->back().c + 1 >= path->back().n) path->pop_back();
        if (path->empty()) { r->complete = 1; break; }
        path->back().c++;
        replay_len = path->size();
        if (o->max_executions > 0 && r->executions >= o->max_executions) break;
        if ((r->executions & 15) == 0 && wall() - t0 > o->time_limit_s) break;
    }
    r->states = opt.preemption_bound < 0 ? seen->size() : seenp->size();
    r->transitions = transitions_new;
    r->outcomes = outc->size();
    r->race_accesses = race_accesses;
    r->max_threads = max_threads;
    r->bound_hit = bound_hit;
}

int mc_replay(void (*body)(void), const McOptions* o, const char* tf, char* msg, size_t n, int verb) {
    opt = *o; static McResult dummy; res = &dummy;
    FILE* f = fopen(tf, "r");
    if (!f) { snprintf(msg, n, "cannot open %s", tf); return -1; }
    char line[8192];
    path->clear();
    while (fgets(line, sizeof line, f)) { Choice c; if (sscanf(line, "C %d %d %d", &c.c, &c.n, &c.kind) == 3) path->push_back(c);
        if (!strncmp(line, "U 1", 3)) unlock_points = true;
        sscanf(line, "B %d", &opt.preemption_bound); }
    fclose(f);
    replaying = true; verbose = verb; replay_len = path->size();
    if (!shPC) shPC = (void**)mmap(nullptr, shadow_bytes * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    run_once(body);
    replaying = false; verbose = false;
    for (auto& s : *notes) if (verb) fprintf(stderr, "  note: %s\n", s.c_str());
    snprintf(msg, n, "%s", violated ? viol_msg : "");
    return violated;
}

int mc_choose(int n, const char* tag) {
    if (!in_exec) return 0;
    int c = choose(n, OP_CHOICE);
    cur->h = mix(cur->h, 0xC401CE + c);
    if (verbose) fprintf(stderr, "  [%4ld] T%d choose %s = %d of %d\n", steps, cur->tid, tag, c, n);
    return c;
}
void mc_fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    char b[3900]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fail_now("%s", b);
}
void mc_stop(void) { aborted = true; to_main(); }
void mc_outcome(const char* s) {
    uint64_t h = 1469598103934665603ull;
    for (const char* p = s; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    if (outc->insert(h).second && outc_samples->size() < 12) outc_samples->push_back(Str(s).substr(0, 400));
}
void mc_note(const char* fmt, ...) {
    char b[600]; va_list ap; va_start(ap, fmt); int k = cur ? snprintf(b, sizeof b, "T%d: ", cur->tid) : 0;
    vsnprintf(b + k, sizeof b - k, fmt, ap); va_end(ap);
    note_str(b);
    if (verbose) fprintf(stderr, "  [%4ld] %s\n", steps, b);
}
int mc_self(void) { return cur ? cur->tid : 0; }
void mc_point(void) { if (in_exec) { point(OP_POINT, nullptr); } }
void mc_touch(uint64_t id) {
    if (!in_exec) return;
    Obj* o = getobj((void*)(0x7000000000000000ull + id * 8));
    point(OP_TOUCH, o); stamp(o, OP_TOUCH);
}
McStamp mc_stamp(void) { McStamp s{cur->tid, cur->vc.c[cur->tid]}; return s; }
int mc_before_now(McStamp s) { return s.tid == cur->tid || s.clk <= cur->vc.c[s.tid]; }
void mc_ghost_begin(void) { ghost_depth++; }
void mc_ghost_end(void) { ghost_depth--; }
long mc_live_allocs(void) { return live_allocs; }
long mc_step(void) { return steps; }
void mc_clock(double now, double tick, int jumps, double jump) {
    if (in_exec) { clk_now = now; clk_tick = tick; clk_jumps = jumps; clk_jump = jump; }
    else { clk0_now = clk_now = now; clk0_tick = clk_tick = tick; clk0_jumps = clk_jumps = jumps; clk0_jump = clk_jump = jump; }
}
double mc_clock_now(void) { return clk_now; }
void mc_clock_advance(double d) { clk_now += d; }
long mc_clock_reads(void) { return clk_reads; }
double mc_clock_history(int tid, long i) { return i < clk_nread[tid & 15] && i < 256 ? clk_hist[tid & 15][i] : -1.0; }
double mc_clock_last(long* n) { if (n) *n = clk_nread[cur->tid & 15]; return clk_last[cur->tid & 15]; }

int mc_sample_count(void) { return sample_traces->size(); }
const char* mc_sample(int i) { return (*sample_traces)[i].c_str(); }
int mc_outcome_sample_count(void) { return outc_samples->size(); }
const char* mc_outcome_sample(int i) { return (*outc_samples)[i].c_str(); }

// =================================================================== pthread interposition
#define PC __builtin_return_address(0)
#define LIVE (in_exec && cur)

int pthread_mutex_lock(pthread_mutex_t* m) { if (!LIVE) return 0; lock_obj(getobj(m), is_recursive(m), PC); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!LIVE) return 0;
    saw_trylock = true;
    Obj* o = getobj(m);
    point(OP_TRYLOCK, o);
    if (o->owner == cur->tid && is_recursive(m)) { o->depth++; return 0; }
    if (o->owner != -1) { cur->h = mix(cur->h, mix(o->id, 0xEB)); return EBUSY; }
    o->owner = cur->tid; o->depth = 1; stamp(o, OP_TRYLOCK); acq(o); trace("trylock", o, PC);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!LIVE) return 0;
    Obj* o = getobj(m);
    size_t i;
    if (shadow_index((uintptr_t)m, i) && shW[i] == FREED) fail_now("use after free: unlock of a mutex in released memory at %s", sym(PC));
    if (o->owner != cur->tid) fail_now("unlock of a mutex that the thread does not hold (owner %s%d) at %s", o->owner < 0 ? "none " : "T", o->owner, sym(PC));
    if (is_recursive(m) && o->depth > 1) { o->depth--; return 0; }
    unlock_obj(o, PC);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) { int t; if (!pthread_mutexattr_gettype(a, &t)) m->__data.__kind = t; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (LIVE) { Obj* o = getobj(m); if (o->owner != -1) fail_now("a mutex is destroyed while held by T%d", o->owner); }
    return 0;
}

int pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*) { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!LIVE) return 0;
    Obj* o = getobj(m); point(OP_WRLOCK, o); cur->op = OP_POINT; o->owner = cur->tid; stamp(o, OP_WRLOCK); acq(o); vjoin(cur->vc, o->rvc); trace("wrlock", o, PC); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!LIVE) return 0;
    Obj* o = getobj(m); point(OP_RDLOCK, o); cur->op = OP_POINT; o->depth++; stamp(o, OP_RDLOCK); acq(o); trace("rdlock", o, PC); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    if (!LIVE) return 0;
    saw_trylock = true; Obj* o = getobj(m); point(OP_TRYLOCK, o);
    if (o->owner != -1 || o->depth) { cur->h = mix(cur->h, mix(o->id, 0xEB)); return EBUSY; }
    o->owner = cur->tid; stamp(o, OP_WRLOCK); acq(o); vjoin(cur->vc, o->rvc); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    if (!LIVE) return 0;
    saw_trylock = true; Obj* o = getobj(m); point(OP_TRYLOCK, o);
    if (o->owner != -1) { cur->h = mix(cur->h, mix(o->id, 0xEB)); return EBUSY; }
    o->depth++; stamp(o, OP_RDLOCK); acq(o); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!LIVE) return 0;
    Obj* o = getobj(m);
    stamp(o, OP_UNLOCK);
    if (o->owner == cur->tid) { o->owner = -1; rel(o); }
    else if (o->depth > 0) { o->depth--; vjoin(o->rvc, cur->vc); cur->vc.c[cur->tid]++; }
    else fail_now("unlock of a shared mutex that is not held");
    trace("rwunlock", o, PC);
    return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
    if (LIVE) { Obj* o = getobj(c); for (int i = 0; i < nfib; i++) if (F[i]->st == ST_WAITCV && F[i]->cv == o && !F[i]->notified) fail_now("a condition variable is destroyed while T%d waits on it", i); }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!LIVE) return 0; return cond_wait(c, m, false, 0, PC); }
static double ts(const timespec* t) { return t->tv_sec + t->tv_nsec * 1e-9; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!LIVE) return 0; return cond_wait(c, m, true, ts(t), PC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { if (!LIVE) return 0; return cond_wait(c, m, true, ts(t), PC); }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!LIVE) return 0;
    Obj* o = getobj(c);
    point(OP_NOTIFY1, o); stamp(o, OP_NOTIFY1); trace("notify_one", o, PC);
    Fiber* w[MAXT]; int n = 0;
    for (int i = 0; i < nfib; i++) if (F[i]->st == ST_WAITCV && F[i]->cv == o && !F[i]->notified) w[n++] = F[i];
    if (n) { int k = choose(n, OP_NOTIFY1); cur->h = mix(cur->h, w[k]->canon); o->h = cur->h; wake(w[k], o); }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!LIVE) return 0;
    Obj* o = getobj(c);
    point(OP_NOTIFYA, o); stamp(o, OP_NOTIFYA); trace("notify_all", o, PC);
    for (int i = 0; i < nfib; i++) if (F[i]->st == ST_WAITCV && F[i]->cv == o && !F[i]->notified) wake(F[i], o);
    return 0;
}

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if (!LIVE) hard_error("thread created outside an execution");
    point(OP_CREATE, nullptr);
    Fiber* f = new_fiber(fn, arg);
    cur->h = mix(cur->h, OP_CREATE);
    f->h = mix(cur->h, 0xC41D); f->canon = mix(cur->canon, cur->h);
    f->vc = cur->vc; f->vc.c[f->tid] = 1; cur->vc.c[cur->tid]++;
    *t = (pthread_t)(f->tid + 1);
    if (verbose) fprintf(stderr, "  [%4ld] T%d creates T%d\n", steps, cur->tid, f->tid);
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    if (!LIVE) return 0;
    int id = (int)t - 1;
    if (id < 0 || id >= nfib) fail_now("join of an unknown thread");
    if (F[id]->joined) fail_now("thread T%d is joined twice", id);
    if (id == cur->tid) return EDEADLK;
    cur->jointid = id;
    point(OP_JOIN, nullptr);
    cur->op = OP_POINT;
    cur->h = mix(cur->h, mix(F[id]->h, OP_JOIN));
    vjoin(cur->vc, F[id]->vc);
    F[id]->joined = true;
    if (ret) *ret = F[id]->ret;
    if (verbose) fprintf(stderr, "  [%4ld] T%d joined T%d\n", steps, cur->tid, id);
    return 0;
}
int pthread_detach(pthread_t t) { int id = (int)t - 1; if (id >= 0 && id < nfib) F[id]->detached = true; return 0; }
pthread_t pthread_self(void) { return cur ? (pthread_t)(cur->tid + 1) : (pthread_t)1; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!LIVE) { if (*(int*)o != 2) { *(int*)o = 2; fn(); } return 0; }
    Obj* ob = getobj(o);
    lock_obj(ob, false, PC);
    if (*(int*)o != 2) { fn(); *(int*)o = 2; }
    unlock_obj(ob, PC);
    return 0;
}
int sched_yield(void) { if (LIVE) { cur->yielding = true; point(OP_YIELD, nullptr); } return 0; }
int nanosleep(const timespec* t, timespec*) { if (LIVE) { clk_now += ts(t); cur->yielding = true; point(OP_YIELD, nullptr); } return 0; }
int clock_nanosleep(clockid_t, int, const timespec* t, timespec*) { if (LIVE) { cur->yielding = true; point(OP_YIELD, nullptr); } return 0; }
int usleep(useconds_t) { if (LIVE) { cur->yielding = true; point(OP_YIELD, nullptr); } return 0; }

int __cxa_guard_acquire(long long* g) {
    char* b = (char*)g;
    if (!LIVE) { return !*b; }
    Obj* o = getobj(b + 1);
    if (*b) { acq(o); return 0; }
    lock_obj(o, false, PC);
    if (*b) { unlock_obj(o, PC); return 0; }
    return 1;
}
void __cxa_guard_release(long long* g) { *(char*)g = 1; if (LIVE) unlock_obj(getobj((char*)g + 1), PC); }
void __cxa_guard_abort(long long* g) { if (LIVE) unlock_obj(getobj((char*)g + 1), PC); }
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) { if (LIVE) cur->dtors->push_back({fn, obj}); return 0; }

// =================================================================== __tsan_* entry points
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_read##n##_pc(void* p, void* pc) { access(p, n, false, pc); } \
  void __tsan_write##n##_pc(void* p, void* pc) { access(p, n, true, pc); } \
  void __tsan_read_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) { access(p, 8, *p != v, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access(s, n, false, PC); access(d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access(d, n, true, PC); return memset(d, c, n); }

#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { Obj* o = atomic_pre(a, AT_LOAD, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_LOAD, mo, false, 0); return v; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { Obj* o = atomic_pre(a, AT_STORE, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_STORE, mo, false, 0); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { Obj* o = atomic_pre(a, AT_RMW, PC); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_RMW, mo, false, 0); return r; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { Obj* o = atomic_pre(a, AT_RMW, PC); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_RMW, mo, (long long)v < 0, (uint64_t)r); return r; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { Obj* o = atomic_pre(a, AT_RMW, PC); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_RMW, mo, true, (uint64_t)r); return r; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { Obj* o = atomic_pre(a, AT_RMW, PC); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_RMW, mo, false, 0); return r; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { Obj* o = atomic_pre(a, AT_RMW, PC); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_RMW, mo, false, 0); return r; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { Obj* o = atomic_pre(a, AT_RMW, PC); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_RMW, mo, false, 0); return r; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { Obj* o = atomic_pre(a, AT_RMW, PC); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_RMW, mo, false, 0); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { Obj* o = atomic_pre(a, AT_RMW, PC); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_RMW, mo, false, 0); return r; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { Obj* o = atomic_pre(a, AT_RMW, PC); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_RMW, mo, false, 0); return r; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { Obj* o = atomic_pre(a, AT_RMW, PC); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomic_post(o, a, AT_RMW, mo, false, 0); return c; }
ATOM(8, char) ATOM(16, short) ATOM(32, int) ATOM(64, long long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

// =================================================================== clocks
namespace std::chrono { inline namespace _V2 {
    static double clock_read() {
        clk_reads++;
        if (in_exec && cur) {
            if (clk_jumps > 0) {
                int c = ::choose(2, OP_CLOCK);
                if (c) { clk_jumps--; clk_now += clk_jump; }
                if (verbose && c) fprintf(stderr, "  [%4ld] T%d the clock jumps forward\n", steps, cur->tid);
            }
            clk_now += clk_tick;
            clk_last[cur->tid & 15] = clk_now; if (clk_nread[cur->tid & 15] < 256) clk_hist[cur->tid & 15][clk_nread[cur->tid & 15]] = clk_now; clk_nread[cur->tid & 15]++;
            uint64_t b; double t = clk_now; memcpy(&b, &t, 8);
            cur->h = mix(cur->h, mix(b, clk_jumps));
        }
        return clk_now;
    }
    system_clock::time_point system_clock::now() noexcept { return time_point(duration(llround(clock_read() * 1e9) + 1700000000000000000LL)); }
    steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(llround(clock_read() * 1e9) + 1000000000000LL)); }
} }

// =================================================================== operator new/delete
void* operator new(size_t n) { init_rt(); return arena_new(n); }
void* operator new[](size_t n) { init_rt(); return arena_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { init_rt(); return arena_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { init_rt(); return arena_new(n); }
void* operator new(size_t n, std::align_val_t) { init_rt(); return arena_new(n); }
void operator delete(void* p) noexcept { arena_del(p, PC); }
void operator delete[](void* p) noexcept { arena_del(p, PC); }
void operator delete(void* p, size_t) noexcept { arena_del(p, PC); }
void operator delete[](void* p, size_t) noexcept { arena_del(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { arena_del(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { arena_del(p, PC); }
