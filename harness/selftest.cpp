#include "mc.h"
#include <atomic>
#include <mutex>
#include <thread>
MC_CASE(SELF, counter)
{
    mc::explore("counter", {2}, [] {
        std::atomic<int> a{0};
        for (int i = 0; i < 2; ++i) mc::spawn([&] { int v = a.load(); a.store(v + 1); });
        mc::join_all();
        mc::outcome(std::to_string(a.load()));
        MC_CHECK(a == 2, "lost update " << a);
    });
}
MC_CASE(SELF, ok)
{
    mc::explore("ok", {3}, [] {
        std::mutex m; int a = 0;
        for (int i = 0; i < 3; ++i) mc::spawn([&] { std::lock_guard<std::mutex> l(m); a++; });
        mc::join_all();
        mc::outcome(std::to_string(a));
        MC_CHECK(a == 3, "lost update " << a);
    });
}
MC_CASE(SELF, stdthread)
{
    mc::explore("stdthread", {2}, [] {
        int a = 0; std::mutex m;
        std::thread t([&] { std::lock_guard<std::mutex> l(m); a = 1; });
        { std::lock_guard<std::mutex> l(m); a = 2; }
        t.join();
        mc::outcome(std::to_string(a));
    });
}
MC_CASE(SELF, endless)
{
    mc::explore("endless", {1}, [] {
        std::atomic<int> a{0}; volatile bool on = true;
        int t = mc::spawn([&] { a = 1; }); if (a.load() == 1) while (on) {}
        mc::join(t);
    });
}
