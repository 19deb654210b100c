// Explorer runtime. Not instrumented; provides the __tsan_* entry points, the pthread layer and virtual time.
#include "mc.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <cxxabi.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
namespace vshim { struct Assertion; }

namespace
{
using u64 = std::uint64_t; using u32 = std::uint32_t; using u16 = std::uint16_t;
constexpr int MAXT = 24;
constexpr std::size_t STACK = 512 * 1024;

double wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; return h; }
inline u64 hash_str(const std::string& s, u64 seed = 1469598103934665603ull) { u64 h = seed; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix(h, s.size()); }

struct VC { u32 c[MAXT]; void clear() { memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Obj { VC rel; u64 lw{0}, reads{0}; int reltid{-1}; };
struct Shadow { const char* base; std::size_t n; const char* what; int wt{-1}; u32 wc{0}; VC rc; };

enum St { RUN, BLOCK_ADDR, BLOCK_COND, SLEEP, DONE, DEAD };
struct Fiber
{
    int tid{0}, vci{0}, proc{0};
    St st{RUN};
    void* sp{nullptr}; char* stack{nullptr};
    const void* waddr{nullptr}; bool woken{false}, timed{false}, timed_out{false}; u64 deadline{0};
    std::function<bool()> pred;
    std::function<void()> fn;
    const char* name{""};
    u64 idx{0}, last{0};
    VC vc, acq, relf; bool has_acq{false}, has_relf{false};
    int nopre{0};
    void* eh[2]{nullptr, nullptr};
    void* retval{nullptr}; bool detached{false}; bool pthread_like{false};
    std::map<pthread_key_t, const void*> tsd;
    bool yielded{false};
};
struct Proc { bool crashable{false}, dead{false}, crashed{false}, death_ok{false}; std::string why; };
struct Choice { u16 n, v; };

struct Shared
{
    volatile u64 execs, trans, pruned, maxdepth, terminated, crashed, nviol, stop, incomplete, states, outs, bad;
    volatile int qlock; volatile int qn; volatile int active; volatile int vlock;
};
struct Table
{
    u64* t{nullptr}; u64 cap{0}; volatile u64* count{nullptr};
    void init(int bits, volatile u64* c) { cap = 1ull << bits; count = c; t = (u64*)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    void destroy() { if (t) munmap(t, cap * 8); t = nullptr; }
    bool contains(u64 k) { if (!k) k = 1; u64 i = k & (cap - 1); for (int p = 0; p < 64; ++p, i = (i + 1) & (cap - 1)) { u64 v = __atomic_load_n(&t[i], __ATOMIC_RELAXED); if (v == k) return true; if (!v) return false; } return false; }
    bool insert(u64 k)  // true if new
    {
        if (!k) k = 1; u64 i = k & (cap - 1);
        for (int p = 0; p < 64; ++p, i = (i + 1) & (cap - 1))
        {
            u64 v = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
            if (v == k) return false;
            if (!v) { if (__atomic_compare_exchange_n(&t[i], &v, k, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(count, 1, __ATOMIC_RELAXED); return true; } if (v == k) return false; }
        }
        return true;
    }
};

struct Viol { std::string expl, msg, file; };
struct Global
{
    std::string property, tier{"quick"}, outfile, replay_dir{"."}, only_case, cur_case;
    bool replay{false}; std::string replay_name; std::vector<u16> replay_choices; std::vector<int> replay_ops; bool replay_done{false}; std::string replay_msg;
    std::vector<mc::Stats> stats; std::vector<Viol> viols; std::vector<std::string> samples;
    int workers{8}; double default_cap{0}; double t_end{0};
    bool verbose{false};
} G;

struct Exec
{
    bool active{false}, exploring{false}, aborting{false}, no_branch{false};
    mc::Config cfg;
    std::vector<Fiber*> f; std::vector<Proc> procs;
    Fiber* cur{nullptr}; int last_tid{-1};
    void* main_sp{nullptr};
    std::vector<Choice> trace; std::vector<u16> prefix;
    int quiet{0}, pre{0}, cra{0}, tmo{0}, spc{0}, spw{0};
    u64 fp{0}, steps{0}, trans{0}, now{1000000000ull};
    std::unordered_map<const void*, Obj> objs;
    std::vector<Shadow> shadows;
    std::vector<std::pair<const char*, const char*>> focus, plain, crash;
    std::string viol; std::vector<std::string> logs; bool deadlocked{false};
    u64 npoints{0}; bool any_term{false}, any_crash{false}; std::string diverged; bool pruned_here{false}; bool did_outcome{false};
} X;
int in_rt = 0;
bool plain_hooks = false;  // any plain/crash/race region registered
struct RtGuard { RtGuard() { ++in_rt; } ~RtGuard() { --in_rt; } };

std::vector<char*> stack_pool; std::vector<Fiber*> fiber_pool;
Shared* S = nullptr; Table visited, outs;
std::vector<u16> crash_dump_choices;

extern "C" void mc_switch(void** save, void* load);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

void** ehg() { return reinterpret_cast<void**>(abi::__cxa_get_globals()); }

[[noreturn]] void fatal(const char* m) { fprintf(stderr, "mc: fatal: %s\n", m); _exit(4); }

// ---- scheduling -------------------------------------------------------------------------------------------------
void to_main();
void switch_to(Fiber* n)
{
    Fiber* p = X.cur;
    if (p == n) return;
    void** g = ehg();
    if (p) { p->eh[0] = g[0]; reinterpret_cast<u32*>(&p->eh[1])[0] = reinterpret_cast<u32*>(&g[1])[0]; }
    g[0] = n->eh[0]; reinterpret_cast<u32*>(&g[1])[0] = reinterpret_cast<u32*>(&n->eh[1])[0];
    X.cur = n;
    int saved = in_rt; in_rt = 0;
    mc_switch(p ? &p->sp : &X.main_sp, n->sp);
    in_rt = saved;
}
void to_main()
{
    Fiber* p = X.cur; X.cur = nullptr;
    void** g = ehg(); g[0] = nullptr; reinterpret_cast<u32*>(&g[1])[0] = 0;
    void* dummy; int saved = in_rt; in_rt = 0;
    mc_switch(p ? &p->sp : &dummy, X.main_sp);
    in_rt = saved;
}
void abort_exec() { X.aborting = true; to_main(); fatal("resumed aborted execution"); }

void set_violation(const std::string& m) { if (X.viol.empty()) X.viol = m; }

u16 pick(int n)
{
    ++X.npoints;
    if (n <= 1 || !X.exploring) return 0;
    std::size_t p = X.trace.size();
    u16 v = 0;
    if (p < X.prefix.size()) { v = X.prefix[p]; if (v >= n) { X.diverged = "replayed choice out of range"; v = 0; } }
    X.trace.push_back({(u16)(X.no_branch ? 1 : n), v});
    return v;
}

bool runnable(Fiber* f)
{
    switch (f->st)
    {
        case RUN: return true;
        case BLOCK_COND: return f->pred();
        default: return false;
    }
}
void ev(Fiber* f, u64 dep) { u64 h = mix(mix(mix(0x51ed, f->tid), ++f->idx), dep); f->last = h; X.fp ^= h; }
Obj& obj(const void* a) { return X.objs[a]; }
void ev_read(const void* a) { Fiber* f = X.cur; Obj& o = obj(a); u64 b = X.fp; ev(f, mix(1, o.lw)); o.reads ^= (X.fp ^ b); }
void ev_write(const void* a) { Fiber* f = X.cur; Obj& o = obj(a); ev(f, mix(mix(2, o.lw), o.reads)); o.lw = f->last; o.reads = 0; }
void ev_local(u64 v) { ev(X.cur, mix(3, v)); }

void kill_proc(int proc, bool crash, const std::string& why)
{
    Proc& p = X.procs[proc];
    if (p.dead) return;
    p.dead = true; p.crashed = crash; p.why = why;
    for (auto* f : X.f) if (f->proc == proc && f->st != DONE)
    {
        f->st = DEAD;
        for (auto* w : X.f) if (w->st == BLOCK_ADDR && w->waddr == f) { w->st = RUN; w->woken = true; w->waddr = nullptr; }
    }
    if (crash) X.any_crash = true; else X.any_term = true;
}

void finish_if_done()
{
    // the execution ends when fiber 0 is done or dead
    if (X.f[0]->st == DONE || X.f[0]->st == DEAD) { to_main(); fatal("resumed finished execution"); }
}

struct Alt { int kind; Fiber* f; };  // 0 run, 1 timeout of f, 2 crash current process, 3 spurious wake

volatile u64 heartbeat = 0;   // see watch_tick
// Chooses the next fiber. Called with X.cur == caller (may be runnable or not).
void schedule(bool cur_runnable, bool crash_ok)
{
    for (;;)
    {
        finish_if_done();
        if (X.f.size() > 1) ++X.trans;
        ++heartbeat;
        if (++X.steps > X.cfg.max_steps) { set_violation("no progress: step bound exceeded (livelock or unbounded retry)"); abort_exec(); }
        Fiber* c = X.cur;
        Alt alts[MAXT * 3 + 4]; int n = 0;
        bool nopre = c && c->nopre > 0 && cur_runnable;
        if (cur_runnable && !c->yielded) alts[n++] = {0, c};
        if (!nopre)
        {
            bool can = !cur_runnable || c->yielded || X.pre < X.cfg.preemptions;
            if (can) for (auto* f : X.f) if (f != c && n < MAXT * 2 && runnable(f)) alts[n++] = {0, f};
            if (cur_runnable && c->yielded && n == 0) alts[n++] = {0, c};
            if (X.tmo < X.cfg.timeouts) for (auto* f : X.f) if ((f->st == SLEEP || (f->st == BLOCK_ADDR && f->timed)) && n < MAXT * 3) alts[n++] = {1, f};
            if (X.spw < X.cfg.spurious_wake) for (auto* f : X.f) if (f->st == BLOCK_ADDR && f->woken == false && f->timed_out == false && f->pthread_like && n < MAXT * 3) alts[n++] = {3, f};
        }
        bool crash_alt = crash_ok && c && X.cra < X.cfg.crashes && X.procs[c->proc].crashable && !X.procs[c->proc].dead;
        if (n == 0 && !crash_alt)
        {
            // time passes only when nothing else can happen
            Fiber* best = nullptr;
            for (auto* f : X.f) if ((f->st == SLEEP || (f->st == BLOCK_ADDR && f->timed)) && (!best || f->deadline < best->deadline)) best = f;
            if (!best)
            {
                X.deadlocked = true;
                if (!X.cfg.allow_deadlock)
                {
                    std::string w = "deadlock: no thread can proceed; blocked:";
                    for (auto* f : X.f) if (f->st != DONE && f->st != DEAD) w += std::string(" ") + f->name;
                    set_violation(w);
                }
                abort_exec();
            }
            if (best->deadline > X.now) X.now = best->deadline;
            best->timed_out = true; best->st = RUN; best->waddr = nullptr;
            cur_runnable = c && c->st == RUN;
            continue;
        }
        if (crash_alt) alts[n++] = {2, c};
        int k = 0;
        if (n > 1 && !X.quiet && X.exploring && X.trace.size() >= X.prefix.size() && X.cfg.prune && !X.no_branch)
        {
            u64 base = mix(mix(mix(X.fp, cur_runnable && !c->yielded ? c->tid + 1 : 0), crash_ok), nopre);
            u64 key = mix(base, ((u64)X.pre << 32) ^ (X.cra << 24) ^ (X.tmo << 16) ^ (X.spc << 8) ^ X.spw);
            bool seen = false;
            for (int p = 0; p < X.pre && !seen; ++p) seen = visited.contains(mix(base, ((u64)p << 32) ^ (X.cra << 24) ^ (X.tmo << 16) ^ (X.spc << 8) ^ X.spw));
            if (seen || !visited.insert(key)) { X.no_branch = true; X.pruned_here = true; }
        }
        if (X.quiet && n > 1) n = 1;
        k = pick(n);
        Alt a = alts[k];
        if (a.kind == 2) { ++X.cra; ev_local(0xdead); std::string nm = c->name; kill_proc(c->proc, true, "crash"); cur_runnable = false; crash_ok = false; continue; }
        if (a.kind == 1) { ++X.tmo; if (a.f->deadline > X.now) X.now = a.f->deadline; a.f->timed_out = true; a.f->st = RUN; ev(a.f, 0x71); if (cur_runnable && c) ev(c, 0x72); cur_runnable = c && c->st == RUN; continue; }
        if (a.kind == 3) { ++X.spw; a.f->woken = true; a.f->st = RUN; ev(a.f, 0x73); cur_runnable = c && c->st == RUN; continue; }
        if (c && a.f != c && cur_runnable && !c->yielded) ++X.pre;
        if (a.f->st == BLOCK_COND) { a.f->st = RUN; a.f->pred = nullptr; ev(a.f, mix(5, X.fp)); }
        if (c) c->yielded = false;
        if (a.f != c) switch_to(a.f);
        return;
    }
}
bool in_focus(const void* a)
{
    if (X.focus.empty()) return true;
    for (auto& r : X.focus) if (a >= r.first && a < r.second) return true;
    return false;
}
// Every scheduling point is an event of its thread: two points of one thread never share a fingerprint.
void sched_point(bool crash_ok) { if (!X.cur) return; ev_local(0x9); schedule(true, crash_ok); }

void fiber_entry()
{
    Fiber* f = X.cur;
    in_rt = 0;
    std::string why;
    bool threw = false;
    try { f->fn(); }
    catch (const std::exception& e) { threw = true; why = std::string("uncaught exception ") + e.what(); }
    catch (...) { threw = true; why = "uncaught exception"; }
    ++in_rt;
    f->fn = nullptr;
    if (threw) { kill_proc(f->proc, false, why); if (!X.procs[f->proc].death_ok) set_violation("unexpected termination: " + why); }
    else f->st = DONE;
    ev_local(0xd0e);
    X.objs[f].lw = f->last;  // join target
    for (auto* g : X.f) if (g->st == BLOCK_ADDR && g->waddr == f) { g->st = RUN; g->woken = true; }
    schedule(false, false);
    fatal("finished fiber resumed");
}

Fiber* make_fiber(std::function<void()> fn, const char* name, int proc)
{
    Fiber* f;
    if (!fiber_pool.empty()) { f = fiber_pool.back(); fiber_pool.pop_back(); char* st = f->stack; *f = Fiber{}; f->stack = st; }
    else { f = new Fiber; f->stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(f->stack, 4096, PROT_NONE); }
    f->tid = (int)X.f.size(); f->vci = f->tid < MAXT ? f->tid : MAXT - 1; f->proc = proc; f->fn = std::move(fn); f->name = name;
    f->vc.clear(); f->acq.clear(); f->relf.clear();
    void** sp = reinterpret_cast<void**>(f->stack + STACK - 64);
    *--sp = nullptr;                       // alignment / fake return
    *--sp = reinterpret_cast<void*>(&fiber_entry);
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f->sp = sp;
    X.f.push_back(f);
    return f;
}

void proc_die(const std::string& why)
{
    if (getenv("MC_BT")) { void* a[48]; const int n = backtrace(a, 48); fprintf(stderr, "%s\n", why.c_str()); backtrace_symbols_fd(a, n, 2); }   // debugging aid
    ++in_rt;
    Fiber* c = X.cur;
    if (!c) { fprintf(stderr, "mc: termination outside exploration: %s\n", why.c_str()); _exit(4); }
    int p = c->proc;
    kill_proc(p, false, why);
    ev_local(0xdeaf);
    if (!X.procs[p].death_ok) { set_violation("unexpected termination: " + why); }
    for (auto* g : X.f) if (g->st == BLOCK_ADDR && g->waddr) for (auto* d : X.f) if (d->st == DEAD && g->waddr == d) { g->st = RUN; g->woken = true; }
    schedule(false, false);
    fatal("dead fiber resumed");
}

// ---- one execution ----------------------------------------------------------------------------------------------
// Mutexes of process singletons outlive an execution: one that ended while holding them (termination, crash, violation)
// must not hand them over locked to the next one.
std::vector<pthread_mutex_t*> static_locks;
extern "C" char __data_start, _end;
inline bool is_static(const void* p) { return p >= static_cast<const void*>(&__data_start) && p < static_cast<const void*>(&_end); }
void reset_exec(const mc::Config& cfg)
{
    for (auto* f : X.f) { f->fn = nullptr; f->pred = nullptr; fiber_pool.push_back(f); }
    X.f.clear(); X.procs.clear(); X.procs.resize(1);
    X.cfg = cfg; X.cur = nullptr; X.aborting = false; X.no_branch = false; X.quiet = 0; X.trace.clear();
    X.pre = X.cra = X.tmo = X.spc = X.spw = 0; X.fp = 0; X.steps = 0; X.trans = 0; X.now = 1000000000ull;
    X.objs.clear(); X.shadows.clear(); X.focus.clear(); X.plain.clear(); X.crash.clear(); plain_hooks = false;
    for (auto* m : static_locks) { m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0; }
    static_locks.clear();
    X.viol.clear(); X.logs.clear(); X.deadlocked = false; X.npoints = 0; X.any_term = X.any_crash = false; X.diverged.clear(); X.pruned_here = false; X.did_outcome = false;
}
void run_one(const mc::Config& cfg, const std::function<void()>& body, std::vector<u16> prefix, bool exploring)
{
    ++in_rt;
    reset_exec(cfg); ++heartbeat;
    X.prefix = std::move(prefix); X.exploring = exploring; X.active = true;
    Fiber* f = make_fiber(body, "main", 0);
    switch_to(f);
    X.active = false; X.cur = nullptr;
    if (X.trace.size() < X.prefix.size()) X.diverged = "execution ended before the replayed prefix";
    --in_rt;
}

std::string choices_str(const std::vector<u16>& v) { std::string s; for (auto c : v) { if (!s.empty()) s += ','; s += std::to_string(c); } return s; }
std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

std::vector<std::string> seen_msgs;  // per worker
std::string viol_list_file;          // shared, appended
void append_line(const std::string& file, const std::string& l) { int fd = open(file.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); if (fd >= 0) { std::string x = l + "\n"; if (write(fd, x.data(), x.size()) < 0) {} close(fd); } }
std::string write_replay(const std::string& name, const std::string& msg, const std::string& kind, const std::string& body, const std::vector<std::string>& logs)
{
    char b[64]; snprintf(b, sizeof b, "%016lx", (unsigned long)mix(hash_str(name), hash_str(msg)));
    std::string p = G.replay_dir + "/" + G.property + "_" + G.cur_case + "_" + b + ".json";
    std::ofstream o(p);
    o << "{\n \"property\": \"" << jesc(G.property) << "\",\n \"case\": \"" << jesc(G.cur_case) << "\",\n \"exploration\": \"" << jesc(name) << "\",\n \"tier\": \"" << G.tier << "\",\n \"kind\": \"" << kind << "\",\n \"choices\": \"" << body << "\",\n \"message\": \"" << jesc(msg) << "\",\n \"log\": [";
    for (std::size_t i = 0; i < logs.size() && i < 200; ++i) o << (i ? ",\n  \"" : "\n  \"") << jesc(logs[i]) << "\"";
    o << "]\n}\n";
    return p;
}
void report(const std::string& name, const std::string& msg, const std::string& kind, const std::string& body, const std::vector<std::string>& logs)
{
    for (auto& m : seen_msgs) if (m == msg) return;
    if (seen_msgs.size() >= 20) return;
    seen_msgs.push_back(msg);
    std::string p = write_replay(name, msg, kind, body, logs);
    append_line(viol_list_file, name + "\x1f" + msg + "\x1f" + p);
    if (S) __atomic_fetch_add(&S->nviol, 1, __ATOMIC_RELAXED);
}

// signal safety net: a memory fault in the code under test is a violation with a replayable choice list
std::string sig_name; const std::string* cur_expl = nullptr; std::string cur_bfs_hist; bool in_bfs = false;
void finalize_fwd();
int main_pid = 0;
void on_sig(int s)
{
    static bool once = false; if (once) _exit(5); once = true;
    ++in_rt;
    std::vector<u16> c; for (auto& t : X.trace) c.push_back(t.v);
    if (cur_expl) report(*cur_expl, s == SIGVTALRM ? std::string("no progress: the code runs on without end") : std::string("memory fault or abort: signal ") + std::to_string(s), in_bfs ? "bfs" : "schedule", in_bfs ? cur_bfs_hist : choices_str(c), X.logs);
    if (G.replay) { printf("REPLAYED: signal %d\n", s); fflush(stdout); _exit(1); }
    if (getpid() == main_pid && cur_expl)
    {
        // the first executions run in the main process: write the result with what was explored so far
        mc::Stats r; r.name = *cur_expl; if (S) { r.executions = S->execs; r.transitions = S->trans; r.states = S->states; } r.complete = false; r.bound = "stopped at a memory fault";
        G.stats.push_back(r);
        X.active = false; X.cur = nullptr;
        finalize_fwd();
    }
    _exit(42);
}
// A loop without any scheduling point never returns to the scheduler: 20 s of processor time in one step are a violation.
void watch_tick(int s)
{
    static u64 last = 0; static int ticks = 0;
    if (!X.active || !X.cur || heartbeat != last) { last = heartbeat; ticks = 0; return; }
    if (++ticks >= 20) on_sig(s);
}
void arm_watch() { itimerval t{{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
void install_sig()
{
    static char alt[1 << 20]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    sa.sa_handler = watch_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr); arm_watch();
}

struct Job { std::vector<u16> prefix; };
constexpr int QCAP = 2048; constexpr int QLEN = 4000;
struct QSlot { u32 len; u16 d[QLEN]; };
QSlot* Q = nullptr;
void lockv(volatile int* l) { while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
void unlockv(volatile int* l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }

void account()
{
    __atomic_fetch_add(&S->execs, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&S->trans, X.trans, __ATOMIC_RELAXED);
    if (X.pruned_here) __atomic_fetch_add(&S->pruned, 1, __ATOMIC_RELAXED);
    if (X.any_term) __atomic_fetch_add(&S->terminated, 1, __ATOMIC_RELAXED);
    if (X.any_crash) __atomic_fetch_add(&S->crashed, 1, __ATOMIC_RELAXED);
    if (X.trace.size() > S->maxdepth) S->maxdepth = X.trace.size();
}

void handle_result(const std::string& name, const mc::Config& cfg, const std::function<void()>& body)
{
    if (!X.diverged.empty())
    {
        append_line(viol_list_file + ".err", "nondeterminism in " + name + ": " + X.diverged + " choices " + choices_str(X.prefix));
        S->bad = 1; S->stop = 1; return;
    }
    if (X.viol.empty()) return;
    // an execution abandoned at a violation leaves its objects behind, which may disturb the ones that follow
    static bool left_behind = false; const bool disturbed = left_behind; left_behind = true;
    for (auto& m : seen_msgs) if (m == X.viol) return;
    std::vector<u16> c; for (auto& t : X.trace) c.push_back(t.v);
    std::string m = X.viol;
    // replay before report: the same schedule must fail the same way twice
    for (int i = 0; i < 2; ++i)
    {
        run_one(cfg, body, c, true);
        if (X.viol != m) { if (disturbed) return; append_line(viol_list_file + ".err", "unreproducible violation in " + name + ": '" + m + "' vs '" + X.viol + "' choices " + choices_str(c)); S->bad = 1; S->stop = 1; return; }
    }
    auto logs = X.logs;
    report(name, m, "schedule", choices_str(c), logs);
    if (seen_msgs.size() >= 8) S->stop = 1;
}

double deadline_of(const mc::Config& cfg) { double cap = cfg.max_seconds > 0 ? cfg.max_seconds : G.default_cap; double d = wall() + cap; if (G.t_end > 0 && G.t_end < d) d = G.t_end; return d; }

void expand(std::vector<Job>& st, const std::vector<Choice>& tr, std::size_t from)
{
    std::vector<u16> base; base.reserve(tr.size()); for (auto& t : tr) base.push_back(t.v);
    // later points first on the stack bottom so that the deepest alternatives are explored first
    for (std::size_t i = from; i < tr.size(); ++i)
        for (int a = tr[i].n - 1; a >= 1; --a) { Job j; j.prefix.assign(base.begin(), base.begin() + i); j.prefix.push_back((u16)a); st.push_back(std::move(j)); }
}
double first_viol_time = 0;
void worker_loop(const std::string& name, const mc::Config& cfg, const std::function<void()>& body, std::vector<Job> st, double dl, bool shared, u64 inproc_limit)
{
    u64 n = 0;
    for (;;)
    {
        if (S->stop) return;
        if (st.empty())
        {
            if (!shared) return;
            bool got = false; Job j;
            __atomic_fetch_sub(&S->active, 1, __ATOMIC_SEQ_CST);
            for (;;)
            {
                if (S->stop) return;
                lockv(&S->qlock);
                if (S->qn > 0) { QSlot& q = Q[--S->qn]; j.prefix.assign(q.d, q.d + q.len); __atomic_fetch_add(&S->active, 1, __ATOMIC_SEQ_CST); got = true; }
                int act = S->active, qn = S->qn;
                unlockv(&S->qlock);
                if (got) break;
                if (act == 0 && qn == 0) return;
                usleep(200);
            }
            st.push_back(std::move(j));
        }
        Job j = std::move(st.back()); st.pop_back();
        std::size_t from = j.prefix.size();
        run_one(cfg, body, std::move(j.prefix), true);
        account();
        auto tr = X.trace;
        handle_result(name, cfg, body);
        if (S->nviol && !first_viol_time) first_viol_time = wall();
        expand(st, tr, from);
        ++n;
        if ((n & 15) == 0 && wall() > dl) { S->incomplete = 1; S->stop = 1; return; }
        if ((n & 15) == 0 && first_viol_time && wall() > first_viol_time + 5) { S->incomplete = 1; S->stop = 1; return; }
        if (cfg.max_execs && S->execs >= cfg.max_execs) { if (!st.empty()) S->incomplete = 1; S->stop = 1; return; }
        if (shared && S->qn < G.workers && st.size() > 2)
        {
            // give the shallowest half away (front of the stack)
            lockv(&S->qlock);
            std::size_t give = std::min<std::size_t>(st.size() / 2, 8), g = 0;
            for (; g < give && S->qn < QCAP && st[g].prefix.size() <= QLEN; ++g) { QSlot& q = Q[S->qn]; q.len = (u32)st[g].prefix.size(); memcpy(q.d, st[g].prefix.data(), q.len * 2); S->qn = S->qn + 1; }
            unlockv(&S->qlock);
            st.erase(st.begin(), st.begin() + g);
        }
        if (!shared && inproc_limit && n >= inproc_limit && !st.empty())
        {
            // hand over to forked workers
            Q = (QSlot*)mmap(nullptr, sizeof(QSlot) * QCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            S->active = G.workers; S->qn = 0;
            std::vector<pid_t> kids;
            fflush(stdout); fflush(stderr);
            for (int w = 0; w < G.workers; ++w)
            {
                pid_t p = fork();
                if (p == 0)
                {
                    prctl(PR_SET_PDEATHSIG, SIGKILL); arm_watch();
                    std::vector<Job> mine;
                    for (std::size_t i = w; i < st.size(); i += G.workers) mine.push_back(st[i]);
                    worker_loop(name, cfg, body, std::move(mine), dl, true, 0);
                    _exit(0);
                }
                kids.push_back(p);
            }
            bool bad = false;
            for (auto p : kids) { int s = 0; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(s) && (WEXITSTATUS(s) == 0))) { bad = true; __atomic_fetch_sub(&S->active, 1, __ATOMIC_SEQ_CST); if (!(WIFEXITED(s) && WEXITSTATUS(s) == 42)) { append_line(viol_list_file + ".err", "worker ended abnormally in " + name + " status " + std::to_string(s)); S->bad = 1; } S->stop = 1; } }
            if (bad) S->incomplete = 1;
            munmap(Q, sizeof(QSlot) * QCAP); Q = nullptr;
            return;
        }
    }
}
}  // namespace

namespace vshim
{
[[noreturn]] void assert_fail(const char* file, int line, const char*, const char* cond, const char* msg)
{
    const char* b = strrchr(file, '/');
    (void)line;
    proc_die(std::string("assertion in ") + (b ? b + 1 : file) + ": " + (cond ? cond : "") + (msg && *msg ? std::string(" - ") + msg : ""));
    abort();
}
}  // namespace vshim

namespace mc
{
bool thorough() { return G.tier == "thorough"; }
std::vector<Case>& cases() { static std::vector<Case> c; return c; }

void explore(const std::string& name0, const Config& cfg, const std::function<void()>& body)
{
    std::string name = name0;
    cur_expl = &name; in_bfs = false;
    if (G.replay)
    {
        if (name != G.replay_name || G.replay_done) return;
        G.replay_done = true;
        S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        visited.init(16, &S->states); outs.init(16, &S->outs);
        run_one(cfg, body, G.replay_choices, true);
        for (auto& l : X.logs) printf("  %s\n", l.c_str());
        G.replay_msg = X.viol;
        return;
    }
    double t0 = wall();
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    visited.init(thorough() ? 27 : 24, &S->states); outs.init(18, &S->outs);
    seen_msgs.clear(); first_viol_time = 0;
    std::vector<Job> st; st.push_back({});
    // determinism: the default schedule twice
    worker_loop(name, cfg, body, st, deadline_of(cfg), false, 200);
    Stats r; r.name = name; r.executions = S->execs; r.transitions = S->trans; r.states = S->states; r.pruned = S->pruned; r.max_depth = S->maxdepth; r.terminated = S->terminated; r.crashed = S->crashed; r.outcomes = S->outs; r.complete = !S->incomplete;
    char b[160]; snprintf(b, sizeof b, "preemptions<=%d crashes<=%d timeouts<=%d spurious_cas<=%d", cfg.preemptions, cfg.crashes, cfg.timeouts, cfg.spurious_cas); r.bound = b;
    r.wall = wall() - t0;
    G.stats.push_back(r);
    if (G.verbose) fprintf(stderr, "%s: execs=%lu trans=%lu states=%lu pruned=%lu outcomes=%lu term=%lu crash=%lu depth=%lu complete=%d viol=%lu %.2fs\n", name.c_str(), (long)r.executions, (long)r.transitions, (long)r.states, (long)r.pruned, (long)r.outcomes, (long)r.terminated, (long)r.crashed, (long)r.max_depth, r.complete, (long)S->nviol, r.wall);
    if (G.samples.size() < 6) { std::string c; for (auto& t : X.trace) c += (c.empty() ? "" : ",") + std::to_string(t.v); std::string l; for (auto& s : X.logs) l += (l.empty() ? "" : " | ") + s; if (l.size() > 600) l.resize(600); if (c.size() > 300) c.resize(300); G.samples.push_back(name + ": schedule choices [" + c + "] events: " + l); }
    bool bad = S->bad;
    visited.destroy(); outs.destroy(); munmap(S, sizeof(Shared)); S = nullptr; cur_expl = nullptr;
    if (bad) G.stats.back().complete = false;
}

int choose(int n, const char* what)
{
    RtGuard g;
    if (!X.cur) fatal("choose outside exploration");
    int v = pick(n);
    ev_local(mix(n, v));
    (void)what;
    return v;
}
int spawn(std::function<void()> f, const char* name, int proc)
{
    RtGuard g;
    Fiber* c = X.cur;
    Fiber* n = make_fiber(std::move(f), name, proc < 0 ? (c ? c->proc : 0) : proc);
    if (c) { ev_local(0x5a); ++c->vc.c[c->vci]; n->vc = c->vc; n->last = c->last; }
    n->vc.c[n->vci] = 1;
    return n->tid;
}
void join(int tid)
{
    RtGuard g;
    Fiber* t = X.f[tid]; Fiber* c = X.cur;
    while (t->st != DONE && t->st != DEAD) { c->st = BLOCK_ADDR; c->waddr = t; c->timed = false; c->woken = false; schedule(false, false); }
    ev(c, mix(7, t->last)); c->vc.join(t->vc);
}
void join_all() { for (std::size_t i = 0; i < X.f.size(); ++i) if (X.f[i] != X.cur) join((int)i); }
int new_proc() { X.procs.push_back({}); return (int)X.procs.size() - 1; }
int cur_proc() { return X.cur ? X.cur->proc : 0; }
int cur_tid() { return X.cur ? X.cur->tid : -1; }
void crashable(int proc, bool on) { X.procs[proc].crashable = on; }
bool proc_dead(int p) { return X.procs[p].dead; }
bool proc_crashed(int p) { return X.procs[p].crashed; }
std::string proc_death(int p) { return X.procs[p].why; }
void expect_death_ok(int p, bool on) { X.procs[p].death_ok = on; }
void point(const char*) { if (!X.cur || in_rt) return; RtGuard g; sched_point(true); }
void ghost(const void* o) { if (!X.cur) return; RtGuard g; ev_write(static_cast<const char*>(o) + 0); }
void block_until(const std::function<bool()>& c, const char*)
{
    RtGuard g;
    Fiber* f = X.cur;
    if (c()) { ev(f, mix(5, X.fp)); return; }
    f->st = BLOCK_COND; f->pred = c; schedule(false, false);
}
void quiet_begin() { ++X.quiet; }
void quiet_end() { if (X.quiet) --X.quiet; }
void nopreempt_begin() { if (X.cur) ++X.cur->nopre; }
void nopreempt_end() { if (X.cur) --X.cur->nopre; }
void focus(const void* p, std::size_t n) { X.focus.push_back({(const char*)p, (const char*)p + n}); }
void track_plain(const void* p, std::size_t n) { X.plain.push_back({(const char*)p, (const char*)p + n}); plain_hooks = true; }
void crash_region(const void* p, std::size_t n) { X.crash.push_back({(const char*)p, (const char*)p + n}); plain_hooks = true; }
void race_check(const void* p, std::size_t n, const char* what)
{
    const std::size_t g = n <= 64 ? 1 : 4;
    for (std::size_t i = 0; i < n; i += g) { X.shadows.push_back(Shadow{(const char*)p + i, std::min(g, n - i), what, -1, 0, {}}); X.shadows.back().rc.clear(); }
    plain_hooks = true;
}
void race_forget(const void* p) { if (!p) { X.shadows.clear(); return; } for (auto& s : X.shadows) if (s.base == p) { s.wt = -1; s.rc.clear(); } }

static void shadow_access(Shadow& s, bool w)
{
    Fiber* f = X.cur;
    u32* c = f->vc.c;
    if (s.wt >= 0 && s.wt != f->vci && c[s.wt] < s.wc) set_violation(std::string("data race on ") + s.what + ": " + (w ? "write" : "read") + " not ordered after an earlier write");
    if (w) { for (int i = 0; i < MAXT; ++i) if (i != f->vci && s.rc.c[i] > c[i]) set_violation(std::string("data race on ") + s.what + ": write not ordered after an earlier read"); s.wt = f->vci; s.wc = c[f->vci]; s.rc.clear(); }
    else s.rc.c[f->vci] = c[f->vci];
}
static Shadow& shadow_for(const void* p, const char* what) { for (auto& s : X.shadows) if (s.base == p) return s; X.shadows.push_back(Shadow{(const char*)p, 1, what, -1, 0, {}}); X.shadows.back().rc.clear(); return X.shadows.back(); }
void payload_write(const void* p, const char* what) { RtGuard g; shadow_access(shadow_for(p, what), true); ev_write(p); }
void payload_read(const void* p, const char* what) { RtGuard g; shadow_access(shadow_for(p, what), false); ev_read(p); }

void violation(const std::string& m) { RtGuard g; set_violation(m); if (G.replay) X.logs.push_back("VIOLATION " + m); }
bool failed() { return !X.viol.empty(); }
void log(const std::string& s) { if (X.logs.size() < 400) X.logs.push_back((X.cur && X.cur->name[0] ? std::string(X.cur->name) + "(" + std::to_string(X.cur->tid) + "): " : std::string()) + s); }
void outcome(const std::string& s) { if (S && outs.t) outs.insert(hash_str(s)); }
void state(std::uint64_t h) { if (S && visited.t) visited.insert(mix(h, 77)); }
std::uint64_t now_ns() { return X.now; }

bool dies(const std::function<void()>& f, std::string* why)
{
    RtGuard g;
    int p = new_proc(); X.procs[p].death_ok = true;
    Fiber* c = X.cur;
    int old_nopre = c->nopre;
    Fiber* n = make_fiber(f, "sub", p); n->vci = c->vci; n->vc = c->vc; n->nopre = 0;
    // run it like a call: it continues in the caller's place
    c->st = BLOCK_ADDR; c->waddr = n; c->timed = false; c->woken = false;
    bool ex = X.exploring; (void)ex;
    switch_to(n);
    while (n->st != DONE && n->st != DEAD) { c->st = BLOCK_ADDR; c->waddr = n; schedule(false, false); }
    c->st = RUN; c->nopre = old_nopre;
    c->vc.join(n->vc); ev(c, mix(7, n->last));
    if (why) *why = X.procs[p].why;
    bool d = X.procs[p].dead;
    // recycle the trailing fiber slot when possible to keep thread ids small
    if (X.f.back() == n) { X.f.pop_back(); fiber_pool.push_back(n); }
    return d;
}

// ---- engine 2 -----------------------------------------------------------------------------------------------------
namespace
{
struct Rec { u32 parent; u16 op; u16 flags; u64 h1, h2; };
struct Node { u32 parent; u16 op; };
bool bfs_enabled; std::string bfs_canon;
void bfs_run(const std::function<std::unique_ptr<System>()>& make, const std::vector<int>& hist)
{
    Config cfg; cfg.preemptions = 0; cfg.max_steps = 2000000; cfg.allow_deadlock = false;
    cur_bfs_hist.clear(); for (int o : hist) { if (!cur_bfs_hist.empty()) cur_bfs_hist += ','; cur_bfs_hist += std::to_string(o); }
    bfs_enabled = true; bfs_canon.clear();
    run_one(cfg, [&] {
        auto s = make();
        for (std::size_t i = 0; i < hist.size() && X.viol.empty(); ++i) if (!s->apply(hist[i])) { bfs_enabled = false; break; }
        if (X.viol.empty()) { bfs_canon = s->canon(); if (bfs_enabled) s->finish(); }
    }, {}, false);
}
}  // namespace

void bfs(const std::string& name0, const BfsConfig& cfg, int n_ops, const std::function<std::string(int)>& op_name, const std::function<std::unique_ptr<System>()>& make)
{
    std::string name = name0; cur_expl = &name; in_bfs = true;
    if (G.replay)
    {
        if (name != G.replay_name || G.replay_done) return;
        G.replay_done = true;
        bfs_run(make, G.replay_ops);
        for (int o : G.replay_ops) printf("  op %s\n", op_name(o).c_str());
        for (auto& l : X.logs) printf("  %s\n", l.c_str());
        G.replay_msg = X.viol; return;
    }
    double t0 = wall(); double cap = cfg.max_seconds > 0 ? cfg.max_seconds : G.default_cap; double dl = t0 + cap; if (G.t_end > 0 && G.t_end < dl) dl = G.t_end;
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    outs.init(18, &S->outs); seen_msgs.clear();
    std::vector<Node> nodes; nodes.push_back({0, 0});
    std::unordered_set<u64> seen;
    std::vector<u32> frontier{0};
    u64 trans = 0, runs = 0; int depth = 0; bool complete = true;
    auto hist_of = [&](u32 id) { std::vector<int> h; while (id) { h.push_back(nodes[id].op); id = nodes[id].parent; } std::reverse(h.begin(), h.end()); return h; };
    auto check_viol = [&](const std::vector<int>& h) -> bool {
        if (X.viol.empty()) return false;
        std::string m = X.viol;
        for (auto& s : seen_msgs) if (s == m) return true;
        for (int i = 0; i < 2; ++i) { bfs_run(make, h); if (X.viol != m) { append_line(viol_list_file + ".err", "unreproducible violation in " + name + ": '" + m + "' vs '" + X.viol + "'"); S->bad = 1; return true; } }
        std::vector<std::string> lg; for (int o : h) lg.push_back("op " + op_name(o)); for (auto& l : X.logs) lg.push_back(l);
        report(name, m, "bfs", cur_bfs_hist, lg);
        return true;
    };
    bfs_run(make, {}); runs++;
    bool root_bad = check_viol({});
    seen.insert(hash_str(bfs_canon));
    if (root_bad) frontier.clear();
    while (!frontier.empty() && depth < cfg.max_depth)
    {
        std::vector<Rec> recs;
        auto work = [&](std::size_t i, std::vector<Rec>& out) {
            auto h = hist_of(frontier[i]); h.push_back(0);
            for (int op = 0; op < n_ops; ++op)
            {
                h.back() = op;
                bfs_run(make, h);
                bool bad = check_viol(h);
                Rec r{frontier[i], (u16)op, (u16)((bad ? 1 : 0) | (bfs_enabled ? 2 : 0)), 0, 0};
                if (!bad && bfs_enabled) { r.h1 = cfg.dedupe ? hash_str(bfs_canon) : 0; }
                out.push_back(r);
            }
        };
        if (frontier.size() * n_ops < 400) { for (std::size_t i = 0; i < frontier.size(); ++i) work(i, recs); }
        else
        {
            int W = G.workers; std::vector<pid_t> kids; std::vector<int> fds;
            fflush(stdout); fflush(stderr);
            volatile u64* next = &S->trans; *next = 0;
            for (int w = 0; w < W; ++w)
            {
                int p[2]; if (pipe(p)) fatal("pipe");
                pid_t pid = fork();
                if (pid == 0)
                {
                    prctl(PR_SET_PDEATHSIG, SIGKILL); arm_watch(); close(p[0]); for (int f : fds) close(f);
                    std::vector<Rec> out; bool cut = false;
                    for (;;) { u64 b = __atomic_fetch_add(next, 8, __ATOMIC_RELAXED); if (b >= frontier.size()) break; for (u64 i = b; i < b + 8 && i < frontier.size(); ++i) { if (S->stop) { cut = true; break; } work(i, out); if (wall() > dl) { S->stop = 1; cut = true; } } if (cut) break; }
                    const char* d = (const char*)out.data(); std::size_t n = out.size() * sizeof(Rec);
                    while (n) { ssize_t k = write(p[1], d, n); if (k <= 0) _exit(3); d += k; n -= k; }
                    _exit(0);
                }
                close(p[1]); fds.push_back(p[0]); kids.push_back(pid);
            }
            for (int w = 0; w < W; ++w)
            {
                std::string buf; char tmp[65536]; ssize_t k; while ((k = read(fds[w], tmp, sizeof tmp)) > 0) buf.append(tmp, k); close(fds[w]);
                std::size_t n = buf.size() / sizeof(Rec); std::size_t o = recs.size(); recs.resize(o + n); memcpy((void*)(recs.data() + o), buf.data(), n * sizeof(Rec));
                int s = 0; while (waitpid(kids[w], &s, 0) < 0 && errno == EINTR) {}
                if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0)) { complete = false; if (!(WIFEXITED(s) && WEXITSTATUS(s) == 42)) { append_line(viol_list_file + ".err", "bfs worker ended abnormally in " + name + " status " + std::to_string(s)); S->bad = 1; } }
            }
            if (S->stop) complete = false;
            std::sort(recs.begin(), recs.end(), [](const Rec& a, const Rec& b) { return a.parent != b.parent ? a.parent < b.parent : a.op < b.op; });
        }
        std::vector<u32> nf;
        for (auto& r : recs)
        {
            ++runs;
            if (!(r.flags & 2)) continue;
            ++trans;
            if (r.flags & 1) continue;
            if (cfg.dedupe && !seen.insert(r.h1).second) continue;
            if (nodes.size() >= cfg.max_states) { complete = false; break; }
            nodes.push_back({r.parent, r.op}); nf.push_back((u32)nodes.size() - 1);
        }
        frontier.swap(nf); ++depth;
        if (S->nviol >= 8) { complete = false; break; }
        if (wall() > dl) { if (!frontier.empty()) complete = false; break; }
    }
    bool closed = frontier.empty() && complete;
    Stats r; r.name = name; r.executions = runs; r.transitions = trans; r.states = nodes.size(); r.max_depth = depth; r.complete = complete; r.outcomes = S->outs;
    r.bound = closed ? "state space closed at depth " + std::to_string(depth) : "operation depth<=" + std::to_string(depth);
    r.wall = wall() - t0; G.stats.push_back(r);
    if (G.verbose) fprintf(stderr, "%s: bfs states=%lu trans=%lu runs=%lu depth=%d %s complete=%d viol=%lu %.2fs\n", name.c_str(), (long)r.states, (long)trans, (long)runs, depth, closed ? "closed" : "bounded", complete, (long)S->nviol, r.wall);
    if (G.samples.size() < 6 && nodes.size() > 1) { auto h = hist_of((u32)nodes.size() - 1); std::string l; for (int o : h) l += (l.empty() ? "" : "; ") + op_name(o); if (l.size() > 500) l.resize(500); G.samples.push_back(name + ": history [" + l + "]"); }
    outs.destroy(); munmap(S, sizeof(Shared)); S = nullptr; cur_expl = nullptr; in_bfs = false;
}
}  // namespace mc

// ---- __tsan_* entry points ---------------------------------------------------------------------------------------------
namespace
{
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ };
inline bool acq(int m) { return m == MO_ACQUIRE || m == MO_CONSUME || m == MO_ACQ_REL || m == MO_SEQ; }
inline bool rel(int m) { return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ; }
inline bool hooked() { return X.active && X.cur && !in_rt; }
void pre(const volatile void* a) { if (in_focus(const_cast<const void*>(a))) sched_point(true); }
void on_load(const volatile void* va, int mo) { const void* a = const_cast<const void*>(va); Fiber* f = X.cur; Obj& o = obj(a); if (acq(mo)) f->vc.join(o.rel); else { f->acq.join(o.rel); f->has_acq = true; } ev_read(a); }
void rel_to(Obj& o, Fiber* f, int mo, bool rmw)
{
    if (rel(mo)) { if (!rmw) o.rel.clear(); o.rel.join(f->vc); ++f->vc.c[f->vci]; }
    else if (f->has_relf) { if (!rmw) o.rel.clear(); o.rel.join(f->relf); }
    else if (!rmw) o.rel.clear();
}
void on_store(const volatile void* va, int mo) { const void* a = const_cast<const void*>(va); Fiber* f = X.cur; rel_to(obj(a), f, mo, false); ev_write(a); }
void on_rmw(const volatile void* va, int mo) { const void* a = const_cast<const void*>(va); Fiber* f = X.cur; Obj& o = obj(a); if (acq(mo)) f->vc.join(o.rel); else { f->acq.join(o.rel); f->has_acq = true; } rel_to(o, f, mo, true); ev_write(a); }

void plain_access(const void* p, std::size_t n, bool w)
{
    if (!plain_hooks || !hooked()) return;
    RtGuard g;
    const char* a = (const char*)p; const char* e = a + n;
    for (auto& r : X.plain) if (a < r.second && e > r.first) { sched_point(true); if (w) ev_write((const void*)((u64)a & ~7ull)); else ev_read((const void*)((u64)a & ~7ull)); break; }
    for (auto& r : X.crash) if (a < r.second && e > r.first)
    {
        if (w && X.cra < X.cfg.crashes && X.procs[X.cur->proc].crashable) { ++X.cur->nopre; sched_point(true); --X.cur->nopre; }
        if (w) ev_write((const void*)((u64)a & ~7ull)); else ev_read((const void*)((u64)a & ~7ull));
        break;
    }
    for (auto& s : X.shadows) if (s.n > 0 && a < s.base + s.n && e > s.base) mc::shadow_access(s, w);
}
}  // namespace

extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) void __tsan_read##N(void* a) { if (__builtin_expect(plain_hooks, 0)) plain_access(a, N, false); } void __tsan_write##N(void* a) { if (__builtin_expect(plain_hooks, 0)) plain_access(a, N, true); } void __tsan_read_write##N(void* a) { if (__builtin_expect(plain_hooks, 0)) { plain_access(a, N, false); plain_access(a, N, true); } } \
  void __tsan_unaligned_read##N(void* a) { if (__builtin_expect(plain_hooks, 0)) plain_access(a, N, false); } void __tsan_unaligned_write##N(void* a) { if (__builtin_expect(plain_hooks, 0)) plain_access(a, N, true); } void __tsan_unaligned_read_write##N(void* a) { if (__builtin_expect(plain_hooks, 0)) { plain_access(a, N, false); plain_access(a, N, true); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { if (plain_hooks) plain_access(a, n, false); }
void __tsan_write_range(void* a, unsigned long n) { if (plain_hooks) plain_access(a, n, true); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { if (plain_hooks) { plain_access(s, n, false); plain_access(d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { if (plain_hooks) { plain_access(s, n, false); plain_access(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { if (plain_hooks) plain_access(d, n, true); return memset(d, c, n); }

#define ATOMICS(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int mo) { if (!hooked()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); RtGuard g; pre(a); T v = *a; on_load(a, mo); return v; } \
void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { if (!hooked()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } RtGuard g; pre(a); *a = v; on_store(a, mo); } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { if (!hooked()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); RtGuard g; pre(a); T o = *a; *a = v; on_rmw(a, mo); return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { if (!hooked()) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); RtGuard g; pre(a); T o = *a; *a = (T)(o + v); on_rmw(a, mo); return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { if (!hooked()) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); RtGuard g; pre(a); T o = *a; *a = (T)(o - v); on_rmw(a, mo); return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { if (!hooked()) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); RtGuard g; pre(a); T o = *a; *a = (T)(o & v); on_rmw(a, mo); return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { if (!hooked()) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); RtGuard g; pre(a); T o = *a; *a = (T)(o | v); on_rmw(a, mo); return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { if (!hooked()) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); RtGuard g; pre(a); T o = *a; *a = (T)(o ^ v); on_rmw(a, mo); return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { if (!hooked()) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); RtGuard g; pre(a); T o = *a; *a = (T) ~(o & v); on_rmw(a, mo); return o; } \
static int cas##B(volatile T* a, T* c, T v, int mo, int fmo, bool weak) { if (!hooked()) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); RtGuard g; pre(a); T o = *a; \
  if (o == *c) { if (weak && X.spc < X.cfg.spurious_cas) { if (pick(2) == 1) { ++X.spc; ev_local(0x5bc); on_load(a, fmo); return 0; } } *a = v; on_rmw(a, mo); return 1; } *c = o; on_load(a, fmo); return 0; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return cas##B(a, c, v, mo, fmo, false); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return cas##B(a, c, v, mo, fmo, true); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { cas##B(a, &c, v, mo, fmo, false); return c; }
ATOMICS(8, a8) ATOMICS(16, a16) ATOMICS(32, a32) ATOMICS(64, a64)
void __tsan_atomic_thread_fence(int mo) { if (!hooked()) return; RtGuard g; Fiber* f = X.cur; if (acq(mo)) { f->vc.join(f->acq); } if (rel(mo)) { f->relf = f->vc; f->has_relf = true; ++f->vc.c[f->vci]; } }
void __tsan_atomic_signal_fence(int) {}

// ---- pthread layer -------------------------------------------------------------------------------------------------
static void hb_acq(const void* a) { X.cur->vc.join(obj(a).rel); }
static void hb_rel(const void* a) { Fiber* f = X.cur; obj(a).rel.join(f->vc); ++f->vc.c[f->vci]; }
static void block_on(const void* a, bool timed, u64 dl) { Fiber* f = X.cur; f->st = BLOCK_ADDR; f->waddr = a; f->timed = timed; f->deadline = dl; f->timed_out = false; f->woken = false; schedule(false, true); f->waddr = nullptr; }
static void wake_all(const void* a) { for (auto* f : X.f) if (f->st == BLOCK_ADDR && f->waddr == a) { f->st = RUN; f->woken = true; } }

// The mutex word: __data.__lock (0 free), __data.__owner tid+1, __data.__count recursion.
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) { int kind = 0; if (at) { int t = 0; pthread_mutexattr_gettype(at, &t); kind = t; } memset(m, 0, sizeof *m); m->__data.__kind = kind; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (X.active && X.cur && !in_rt && m->__data.__lock) { RtGuard g; set_violation("mutex destroyed while locked"); }
    return 0;
}
static int mtx_lock(pthread_mutex_t* m, bool try_only, bool timed, u64 dl)
{
    if (!X.active || !X.cur) { m->__data.__lock = 1; return 0; }
    RtGuard g;
    if (in_focus(m) || m->__data.__lock) sched_point(true);
    Fiber* f = X.cur;
    while (m->__data.__lock)
    {
        if (m->__data.__owner == f->tid + 1)
        {
            if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++m->__data.__count; return 0; }
            if (!try_only) { set_violation("self-deadlock: thread locks a mutex it already holds"); abort_exec(); }
        }
        if (try_only) { ev_read(m); return EBUSY; }
        block_on(m, timed, dl);
        if (timed && f->timed_out && m->__data.__lock) return ETIMEDOUT;
    }
    m->__data.__lock = 1; m->__data.__owner = f->tid + 1;
    if (is_static(m) && std::find(static_locks.begin(), static_locks.end(), m) == static_locks.end()) static_locks.push_back(m);
    hb_acq(m); ev_write(m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return mtx_lock(m, false, false, 0); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mtx_lock(m, true, false, 0); }
static u64 ts_ns(const timespec* t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return mtx_lock(m, false, true, ts_ns(t)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* t) { return mtx_lock(m, false, true, ts_ns(t)); }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!X.active || !X.cur) { m->__data.__lock = 0; m->__data.__owner = 0; return 0; }
    RtGuard g;
    if (m->__data.__count) { --m->__data.__count; return 0; }
    if (m->__data.__lock && m->__data.__owner != X.cur->tid + 1 && !X.procs[X.cur->proc].death_ok) set_violation("mutex unlocked by a thread that does not hold it");
    hb_rel(m); ev_write(m);
    m->__data.__lock = 0; m->__data.__owner = 0;
    wake_all(m);
    if (in_focus(m)) sched_point(true);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (X.active && X.cur && !in_rt) { RtGuard g; for (auto* f : X.f) if (f->st == BLOCK_ADDR && f->waddr == c) set_violation("condition variable destroyed while a thread waits on it"); }
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, u64 dl)
{
    if (!X.active || !X.cur) fatal("condition wait outside exploration");
    int saved_count;
    {
        RtGuard g;
        // What the predicate read may be outdated by the time the wait begins, if it is not guarded by the mutex.
        if (in_focus(c)) sched_point(true);
        Fiber* f = X.cur;
        saved_count = m->__data.__count; m->__data.__count = 0;
        hb_rel(m); ev_write(m); ev_write(c);
        m->__data.__lock = 0; m->__data.__owner = 0; wake_all(m);
        f->pthread_like = true;
        block_on(c, timed, dl);
        f->pthread_like = false;
        ev_write(c);
    }
    bool to = X.cur->timed_out && !X.cur->woken;
    mtx_lock(m, false, false, 0);
    m->__data.__count = saved_count;
    return timed && to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return cond_wait(c, m, true, ts_ns(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return cond_wait(c, m, true, ts_ns(t)); }
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!X.active || !X.cur) return 0;
    RtGuard g; ev_write(c);
    // which waiter is woken is a choice
    Fiber* w[MAXT * 2]; int n = 0;
    for (auto* f : X.f) if (f->st == BLOCK_ADDR && f->waddr == c && n < MAXT * 2) w[n++] = f;
    if (n) { int k = n > 1 ? pick(n) : 0; if (n > 1) ev_local(k + 1000); w[k]->st = RUN; w[k]->woken = true; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) { if (!X.active || !X.cur) return 0; RtGuard g; ev_write(c); wake_all(c); return 0; }
// rwlock: __data.__readers = reader count, __data.__cur_writer = tid+1
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rw_lock(pthread_rwlock_t* l, bool wr, bool try_only)
{
    if (!X.active || !X.cur) return 0;
    RtGuard g; sched_point(true);
    while (l->__data.__cur_writer || (wr && l->__data.__readers)) { if (try_only) { ev_read(l); return EBUSY; } if (l->__data.__cur_writer == X.cur->tid + 1) { set_violation("self-deadlock on a shared mutex"); abort_exec(); } block_on(l, false, 0); }
    if (wr) l->__data.__cur_writer = X.cur->tid + 1; else ++l->__data.__readers;
    hb_acq(l); ev_write(l); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_lock(l, false, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_lock(l, true, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (!X.active || !X.cur) return 0; RtGuard g; hb_rel(l); ev_write(l); if (l->__data.__cur_writer) l->__data.__cur_writer = 0; else if (l->__data.__readers) --l->__data.__readers; wake_all(l); sched_point(true); return 0; }

int pthread_once(pthread_once_t* o, void (*f)())
{
    if (*o == 2) { if (hooked()) { RtGuard g; hb_acq(o); } return 0; }
    if (!hooked()) { *o = 2; f(); return 0; }
    { RtGuard g; sched_point(true); while (*o == 1) block_on(o, false, 0); if (*o == 2) { hb_acq(o); ev_read(o); return 0; } *o = 1; ev_write(o); }
    f();
    { RtGuard g; *o = 2; hb_rel(o); ev_write(o); wake_all(o); }
    return 0;
}
int pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!X.active || !X.cur) fatal("thread created outside exploration");
    int t = mc::spawn([fn, arg] { void* r = fn(arg); X.cur->retval = r; }, "thread");
    *out = (pthread_t)(t + 1);
    { RtGuard g; sched_point(true); }
    return 0;
}
int pthread_join(pthread_t t, void** r) { mc::join((int)t - 1); if (r) *r = X.f[t - 1]->retval; return 0; }
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { return X.active && X.cur ? (pthread_t)(X.cur->tid + 1) : (pthread_t)1; }
int pthread_setname_np(pthread_t, const char*) { return 0; }
int sched_yield() { if (hooked()) { RtGuard g; X.cur->yielded = true; sched_point(true); return 0; } return (int)syscall(SYS_sched_yield); }
// std::future waits on a futex directly.
bool futex_wait_hook(void*, unsigned* p, unsigned v) __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool futex_wait_hook(void*, unsigned* p, unsigned v)
{
    if (hooked()) mc::block_until([p, v] { return *(volatile unsigned*)p != v; }, "future");
    else while (*(volatile unsigned*)p == v) sched_yield();
    return true;
}
void futex_notify_hook(void*, unsigned*) __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
void futex_notify_hook(void*, unsigned*) {}
static int vsleep_until(u64 dl) { RtGuard g; Fiber* f = X.cur; f->st = SLEEP; f->deadline = dl; f->timed_out = false; schedule(false, true); return 0; }
int nanosleep(const timespec* t, timespec*) { if (hooked()) return vsleep_until(X.now + ts_ns(t)); return (int)syscall(SYS_nanosleep, t, nullptr); }
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec*) { if (hooked()) return vsleep_until((fl & TIMER_ABSTIME) ? ts_ns(t) : X.now + ts_ns(t)); return (int)syscall(SYS_clock_nanosleep, c, fl, t, nullptr); }
int usleep(useconds_t u) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int clock_gettime(clockid_t c, timespec* t) { if (X.active && X.cur) { X.now += 1000; t->tv_sec = X.now / 1000000000ull; t->tv_nsec = X.now % 1000000000ull; return 0; } return (int)syscall(SYS_clock_gettime, c, t); }
void abort() { if (X.active && X.cur && !in_rt) { proc_die("abort"); } signal(SIGABRT, SIG_DFL); kill(getpid(), SIGABRT); _exit(134); }
void __cxa_pure_virtual() { if (X.active && X.cur) proc_die("pure virtual call"); _exit(4); }
}

static void on_terminate() { if (X.active && X.cur) proc_die("std::terminate"); fprintf(stderr, "mc: std::terminate outside exploration\n"); _exit(4); }

static std::string jget(const std::string& j, const std::string& k) { auto p = j.find("\"" + k + "\""); if (p == std::string::npos) return ""; p = j.find(':', p); p = j.find('"', p); std::string o; for (++p; p < j.size() && j[p] != '"'; ++p) { if (j[p] == '\\') { ++p; o += j[p] == 'n' ? '\n' : j[p]; } else o += j[p]; } return o; }

[[noreturn]] static void finalize()
{
    std::ifstream vf(viol_list_file); std::string l;
    while (std::getline(vf, l)) { auto p = l.find('\x1f'), q = l.find('\x1f', p + 1); if (q == std::string::npos) continue; Viol v{l.substr(0, p), l.substr(p + 1, q - p - 1), l.substr(q + 1)}; bool dup = false; for (auto& o : G.viols) dup |= o.msg == v.msg && o.expl == v.expl; if (!dup) G.viols.push_back(v); }
    std::vector<std::string> errs; std::ifstream ef(viol_list_file + ".err"); while (std::getline(ef, l)) errs.push_back(l);
    unlink(viol_list_file.c_str()); unlink((viol_list_file + ".err").c_str());
    std::ostringstream o;
    o << "{\"explorations\":[";
    for (std::size_t i = 0; i < G.stats.size(); ++i) { auto& s = G.stats[i]; o << (i ? "," : "") << "{\"name\":\"" << jesc(s.name) << "\",\"executions\":" << s.executions << ",\"transitions\":" << s.transitions << ",\"states\":" << s.states << ",\"pruned\":" << s.pruned << ",\"depth\":" << s.max_depth << ",\"terminated\":" << s.terminated << ",\"crashed\":" << s.crashed << ",\"outcomes\":" << s.outcomes << ",\"complete\":" << (s.complete ? "true" : "false") << ",\"bound\":\"" << jesc(s.bound) << "\",\"wall\":" << s.wall << "}"; }
    o << "],\"violations\":[";
    for (std::size_t i = 0; i < G.viols.size(); ++i) o << (i ? "," : "") << "{\"exploration\":\"" << jesc(G.viols[i].expl) << "\",\"message\":\"" << jesc(G.viols[i].msg) << "\",\"replay\":\"" << jesc(G.viols[i].file) << "\"}";
    o << "],\"errors\":[";
    for (std::size_t i = 0; i < errs.size(); ++i) o << (i ? "," : "") << "\"" << jesc(errs[i]) << "\"";
    o << "],\"samples\":[";
    for (std::size_t i = 0; i < G.samples.size(); ++i) o << (i ? "," : "") << "\"" << jesc(G.samples[i]) << "\"";
    o << "]}\n";
    if (G.outfile.empty()) printf("%s", o.str().c_str()); else std::ofstream(G.outfile) << o.str();
    for (auto& v : G.viols) fprintf(stderr, "violation in %s: %s (%s)\n", v.expl.c_str(), v.msg.c_str(), v.file.c_str());
    for (auto& e : errs) fprintf(stderr, "error: %s\n", e.c_str());
    fflush(stdout); fflush(stderr);
    _exit(!errs.empty() && G.viols.empty() ? 3 : G.viols.empty() ? 0 : 1);
}

namespace { void finalize_fwd() { finalize(); } }
int main(int argc, char** argv)
{
    // Addresses decide which lock guards an atomic shared_ptr and in which order hash tables iterate: keep them the
    // same in every run, where the system lets us.
    if (!getenv("MC_FIXED_ADDRESSES") && personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE))
    {
        setenv("MC_FIXED_ADDRESSES", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    main_pid = getpid();
    std::string replay; bool list = false; double cap = 0;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--property") G.property = nx(); else if (a == "--tier") G.tier = nx(); else if (a == "--out") G.outfile = nx(); else if (a == "--replay-dir") G.replay_dir = nx();
        else if (a == "--case") G.only_case = nx(); else if (a == "--replay") replay = nx(); else if (a == "--list") list = true; else if (a == "-v") G.verbose = true; else if (a == "--workers") G.workers = atoi(nx().c_str()); else if (a == "--cap") cap = atof(nx().c_str());
        else if (a == "--total") G.t_end = wall() + atof(nx().c_str());
    }
    if (list) { for (auto& c : mc::cases()) printf("%s %s\n", c.property, c.name); return 0; }
    mkdir(G.replay_dir.c_str(), 0777);
    G.default_cap = cap > 0 ? cap : (G.tier == "thorough" ? 600 : 150);
    std::set_terminate(on_terminate); install_sig();
    viol_list_file = (G.outfile.empty() ? std::string("/tmp/mc_viol_") + std::to_string(getpid()) : G.outfile) + ".viol"; unlink(viol_list_file.c_str()); unlink((viol_list_file + ".err").c_str());
    if (!replay.empty())
    {
        std::ifstream in(replay); std::string j((std::istreambuf_iterator<char>(in)), {});
        G.property = jget(j, "property"); G.only_case = jget(j, "case"); G.tier = jget(j, "tier"); G.replay_name = jget(j, "exploration"); std::string kind = jget(j, "kind"), ch = jget(j, "choices"), msg = jget(j, "message");
        std::stringstream ss(ch); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) { G.replay_choices.push_back((u16)atoi(t.c_str())); G.replay_ops.push_back(atoi(t.c_str())); }
        G.replay = true;
        for (auto& c : mc::cases()) if (G.property == c.property && G.only_case == c.name) { G.cur_case = c.name; c.fn(); }
        printf("REPLAYED: %s\n", G.replay_msg.empty() ? "(no violation)" : G.replay_msg.c_str());
        return G.replay_msg.empty() ? 0 : 1;
    }
    for (auto& c : mc::cases())
    {
        if (!G.property.empty() && G.property != c.property) continue;
        if (!G.only_case.empty() && G.only_case != c.name) continue;
        G.cur_case = c.name; if (G.property.empty()) G.property = c.property;
        c.fn();
    }
    finalize();
}
