// P04: the single-shot future between a caller and an engine thread.
#include "mc.h"
#include "score/message_passing/non_allocating_future/non_allocating_future.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <cstring>
#include <optional>

namespace
{
using score::message_passing::detail::NonAllocatingFuture;
// Mutex and condition variable that know whether their owner already destroyed them.
struct Alive { bool gone{false}; void use(const char* what) const { mc::ghost(this); MC_CHECK(!gone, what << " after the waiter returned and destroyed it"); } };
struct Mtx
{
    std::mutex m; Alive a;
    void lock() { a.use("mutex locked"); m.lock(); a.use("mutex lock completed"); }
    void unlock() { a.use("mutex unlocked"); m.unlock(); }
    bool try_lock() { a.use("mutex tried"); return m.try_lock(); }
};
struct Cv
{
    std::condition_variable_any c; Alive a;
    template <class L, class P> void wait(L& l, P p) { a.use("condition variable waited on"); while (!p()) c.wait(l); }
    template <class L> void wait(L& l) { a.use("condition variable waited on"); c.wait(l); }
    void notify_all() noexcept { a.use("condition variable notified"); c.notify_all(); a.use("condition variable notification completed"); }
    void notify_one() noexcept { a.use("condition variable notified"); c.notify_one(); a.use("condition variable notification completed"); }
};
struct Val
{
    int a{0}, b{0}; bool moved{false};
    Val() = default;
    Val(int x) : a(x), b(x) {}
    Val(const Val&) = default;
    Val(Val&& o) noexcept : a(o.a), b(o.b) { o.moved = true; }
    Val& operator=(const Val&) = default;
    Val& operator=(Val&& o) noexcept { a = o.a; b = o.b; o.moved = true; return *this; }
};
enum How { Copy, Move, InPlace };
using Fut = NonAllocatingFuture<Mtx, Cv, Val>;
using FutV = NonAllocatingFuture<Mtx, Cv, void>;

// waiters: number of waiting threads; each destroys nothing but the last to return destroys everything.
void one(const char* name, mc::Config cfg, int waiters, How how, bool main_signals)
{
    mc::explore(name, cfg, [=] {
        Mtx m; Cv c; Val v; v.a = v.b = -1;
        alignas(Fut) unsigned char mem[sizeof(Fut)];
        auto* f = new (mem) Fut(m, c, v);
        mc::race_check(mem, sizeof mem, "future");
        mc::race_check(&v, sizeof v, "value");
        std::atomic<int> left{waiters}; bool marked = false;
        auto signal = [&] {
            Val x(7);
            { mc::ghost(&marked); marked = true; }   // the earliest moment at which waiting may end
            if (how == Copy) { f->UpdateValueMarkReady(static_cast<const Val&>(x)); MC_CHECK(!x.moved && x.a == 7, "the source of a copied value was changed"); }
            else if (how == Move) f->UpdateValueMarkReady(std::move(x));
            else { auto& r = f->GetValueForUpdate(); r.a = 7; r.b = 7; f->MarkReady(); }
        };
        auto wait = [&] {
            f->Wait();
            mc::ghost(&marked);
            MC_CHECK(marked, "wait returned before the value was set");
            const Val& r = f->GetValue();
            MC_CHECK(r.a == 7 && r.b == 7, "wait returned with value " << r.a << "/" << r.b);
            mc::outcome("v" + std::to_string(r.a));
            if (--left == 0)
            {
                m.a.gone = true; c.a.gone = true;
                mc::ghost(&m.a); mc::ghost(&c.a);
                for (std::size_t i = 0; i < sizeof mem; ++i) static_cast<volatile unsigned char*>(mem)[i] = 0;
                v.a = v.b = -2;
            }
        };
        for (int i = 0; i < waiters - (main_signals ? 0 : 1); ++i) mc::spawn(wait, "waiter");
        if (main_signals) signal(); else { mc::spawn(signal, "signal"); wait(); }
        mc::join_all();
    });
}
void none(const char* name, mc::Config cfg, int waiters)
{
    mc::explore(name, cfg, [=] {
        Mtx m; Cv c;
        alignas(FutV) unsigned char mem[sizeof(FutV)];
        auto* f = new (mem) FutV(m, c);
        mc::race_check(mem, sizeof mem, "future");
        std::atomic<int> left{waiters}; int done = 0; bool marked = false;
        for (int i = 0; i < waiters; ++i) mc::spawn([&] {
            f->Wait();
            mc::ghost(&marked); MC_CHECK(marked, "wait returned before it was ready");
            f->Wait();  // stays ready
            ++done;
            if (--left == 0)
            {
                m.a.gone = true; c.a.gone = true; mc::ghost(&m.a); mc::ghost(&c.a);
                for (std::size_t i = 0; i < sizeof mem; ++i) static_cast<volatile unsigned char*>(mem)[i] = 0;
            }
        }, "waiter");
        { mc::ghost(&marked); marked = true; }
        f->MarkReady();
        mc::join_all();
        MC_CHECK(done == waiters, "a waiter did not return");
        mc::outcome(std::to_string(done));
    });
}
// Waiting without a signal never returns.
void never(const char* name)
{
    mc::Config cfg{2}; cfg.spurious_wake = 2; cfg.allow_deadlock = true;
    mc::explore(name, cfg, [] {
        Mtx m; Cv c; Val v; Fut f(m, c, v); FutV g(m, c);
        mc::spawn([&] { f.Wait(); mc::violation("wait returned although nothing was ever signalled"); }, "waiter");
        mc::spawn([&] { g.Wait(); mc::violation("wait returned although nothing was ever signalled"); }, "waiter");
        { f.GetValueForUpdate() = Val(3); }
        { std::lock_guard<Mtx> l(m); c.notify_all(); }
        mc::outcome("blocked");
        mc::join_all();
    });
}
// The real standard library types, futures sharing one mutex and condition variable.
void shared(const char* name, mc::Config cfg)
{
    mc::explore(name, cfg, [] {
        std::mutex m; std::condition_variable_any c; int a = 0, b = 0;
        NonAllocatingFuture<std::mutex, std::condition_variable_any, int> f(m, c, a), g(m, c, b);
        bool fa = false, ga = false;
        mc::spawn([&] { mc::ghost(&fa); fa = true; f.UpdateValueMarkReady(1); }, "signal f");
        mc::spawn([&] { mc::ghost(&ga); ga = true; g.UpdateValueMarkReady(2); }, "signal g");
        mc::spawn([&] { g.Wait(); mc::ghost(&ga); MC_CHECK(ga && g.GetValue() == 2, "wait on g returned early"); }, "waiter g");
        f.Wait(); mc::ghost(&fa); MC_CHECK(fa && f.GetValue() == 1, "wait on f returned early");
        mc::outcome(std::to_string(ga));
        mc::join_all();
    });
}
mc::Config cfg(int p, int spurious) { mc::Config c{p}; c.spurious_wake = spurious; return c; }
}  // namespace
MC_CASE(P04, copy) { one("copy", cfg(mc::tier(4, 8), 1), 1, Copy, false); }
MC_CASE(P04, move) { one("move", cfg(mc::tier(4, 8), 1), 1, Move, true); }
MC_CASE(P04, inplace) { one("inplace", cfg(mc::tier(4, 8), 1), 1, InPlace, false); }
MC_CASE(P04, two_waiters) { one("two_waiters", cfg(mc::tier(3, 6), 1), 2, Copy, true); }
MC_CASE(P04, three_waiters) { one("three_waiters", cfg(mc::tier(2, 3), 0), 3, Copy, true); }
MC_CASE(P04, void_waiters) { none("void_one", cfg(mc::tier(4, 8), 1), 1); none("void_two", cfg(mc::tier(3, 5), 1), 2); }
MC_CASE(P04, never) { never("never"); }
MC_CASE(P04, shared) { shared("shared", cfg(mc::tier(2, 4), 1)); }
