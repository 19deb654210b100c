// Bounded exhaustive exploration of the real code: see /verif/DESIGN.md ("The two engines").
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc
{
// ---------------------------------------------------------------------------------------------------------------
// Configuration of one exploration
// ---------------------------------------------------------------------------------------------------------------
struct Config
{
    int preemptions{2};        ///< bound on context switches away from a runnable thread
    int crashes{0};            ///< bound on process crashes (only for processes marked crashable)
    int timeouts{0};           ///< bound on timed waits that expire although other threads could still run
    int spurious_cas{0};       ///< bound on spurious failures of weak compare-exchange
    int spurious_wake{0};      ///< bound on spurious condition variable wake-ups
    std::uint64_t max_steps{20000};  ///< steps of one execution; exceeding it is reported as livelock
    bool allow_deadlock{false};
    bool prune{true};          ///< happens-before state pruning
    double max_seconds{0};     ///< wall-clock cap (0: the tier's default); a capped run reports it
    std::uint64_t max_execs{0};
};

struct Stats
{
    std::string name;
    std::uint64_t executions{0}, transitions{0}, states{0}, pruned{0}, max_depth{0}, terminated{0}, crashed{0};
    std::uint64_t outcomes{0};
    bool complete{true};
    std::string bound;
    double wall{0};
};

// ---------------------------------------------------------------------------------------------------------------
// Engine 1: stateless exploration of all interleavings / choices. The body runs as fiber 0.
// ---------------------------------------------------------------------------------------------------------------
/// Explore every execution of `body` within the bounds. Violations are replayed, written to a file and counted.
void explore(const std::string& name, const Config& cfg, const std::function<void()>& body);

int choose(int n, const char* what = "choice");                     ///< enumerated data choice, 0..n-1
int spawn(std::function<void()> f, const char* name = "t", int proc = -1);  ///< proc -1: the caller's process
void join(int tid);
void join_all();                                                     ///< wait for every other fiber
void crashable(int proc, bool on = true);                            ///< crash points enumerated for the process
int new_proc();
int cur_proc();
int cur_tid();
bool proc_dead(int proc);                                            ///< crashed or terminated
bool proc_crashed(int proc);
std::string proc_death(int proc);
void expect_death_ok(int proc, bool on = true);                      ///< termination of the process is an outcome
void point(const char* what = "point");                              ///< explicit scheduling point
void ghost(const void* obj);                                         ///< the oracle touches shared ghost state
void block_until(const std::function<bool()>& cond, const char* what = "wait");
void nopreempt_begin();
void nopreempt_end();
/// Set-up whose schedule is not explored: the first thread that can run does.
void quiet_begin();
void quiet_end();
struct Quiet { Quiet() { quiet_begin(); } ~Quiet() { quiet_end(); } };
struct NoPreempt { NoPreempt() { nopreempt_begin(); } ~NoPreempt() { nopreempt_end(); } };

/// Only atomics inside focus regions are scheduling points once any region is registered.
void focus(const void* p, std::size_t n);
/// Plain accesses in these regions are scheduling points too.
void track_plain(const void* p, std::size_t n);
/// Plain writes by a crashable process in these regions are crash points.
void crash_region(const void* p, std::size_t n);
/// Plain accesses of instrumented code (harness included) to the region are checked for happens-before.
void race_check(const void* p, std::size_t n, const char* what);
void race_forget(const void* p);
/// Explicit payload access by the harness, checked for happens-before against conflicting accesses.
void payload_write(const void* p, const char* what);
void payload_read(const void* p, const char* what);

void violation(const std::string& msg);   ///< record a violation of the property in this execution
bool failed();
void log(const std::string& s);           ///< shown in replays
void outcome(const std::string& s);       ///< distinct observed outcomes are counted
void state(std::uint64_t h);              ///< additional distinct state fingerprint
std::uint64_t now_ns();                   ///< virtual time

/// Runs f in its own process/fiber; true if it terminated instead of returning.
bool dies(const std::function<void()>& f, std::string* why = nullptr);

// ---------------------------------------------------------------------------------------------------------------
// Engine 2: explicit-state breadth-first search; a state is the history of operations reaching it.
// ---------------------------------------------------------------------------------------------------------------
/// System under test plus its reference model. apply() performs one operation on both and compares them
/// (mc::violation on disagreement); returns false if the operation is not enabled (the branch ends silently).
struct System
{
    virtual ~System() = default;
    virtual bool apply(int op) = 0;
    virtual std::string canon() = 0;     ///< canonical form of the joint state
    virtual void finish() {}             ///< called at the end of each history (checks at teardown)
};
struct BfsConfig
{
    int max_depth{64};
    std::uint64_t max_states{2000000};
    bool dedupe{true};
    double max_seconds{0};
};
void bfs(const std::string& name, const BfsConfig& cfg, int n_ops, const std::function<std::string(int)>& op_name,
         const std::function<std::unique_ptr<System>()>& make);

// ---------------------------------------------------------------------------------------------------------------
// Driver
// ---------------------------------------------------------------------------------------------------------------
bool thorough();
/// Tier dependent value.
template <class T> T tier(T quick, T deep) { return thorough() ? deep : quick; }
void run_case(const std::string& name, const std::function<void()>& f);  ///< registers and runs one named exploration
using CaseFn = void (*)();
struct Case { const char* property; const char* name; CaseFn fn; int weight; };
std::vector<Case>& cases();
struct Reg { Reg(const char* p, const char* n, CaseFn f, int w = 1) { cases().push_back({p, n, f, w}); } };
}  // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_CASE(prop, name)                                        \
    static void MC_CAT(mc_case_, name)();                          \
    static ::mc::Reg MC_CAT(mc_reg_, name){#prop, #name, MC_CAT(mc_case_, name)}; \
    static void MC_CAT(mc_case_, name)()
#define MC_CHECK(cond, ...)                                                                           \
    do                                                                                                \
    {                                                                                                 \
        if (!(cond))                                                                                  \
        {                                                                                             \
            std::ostringstream mc_o_;                                                                 \
            mc_o_ << __VA_ARGS__;                                                                     \
            ::mc::violation(mc_o_.str() + " [" #cond "]");                                            \
        }                                                                                             \
    } while (0)
#endif
