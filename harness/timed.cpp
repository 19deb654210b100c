// P03: the queue of timed commands of the messaging engine.
#include "mc.h"
#include "score/message_passing/timed_command_queue.h"
#include <algorithm>
#include <atomic>

namespace
{
using Q = score::message_passing::detail::TimedCommandQueue;
using TP = Q::TimePoint;
TP at(int t) { return TP{Q::Clock::duration{t}}; }
int of(TP t) { return int(t.time_since_epoch().count()); }

// ---- histories -------------------------------------------------------------------------------------------------
// The model is the list of outstanding entries in the order in which they have to run. It is updated in step with the
// queue, also from inside running commands.
struct Hist final : mc::System
{
    static constexpr int N = 3;
    enum Then { Nothing, AgainNow, AgainLater, OtherNow, OtherLater, CleanA, CleanNull, kThen };
    struct Due { int entry, until; Then then; const void* owner; };
    Q q; std::array<Q::Entry, N> e; std::vector<Due> pending; int now{1}, runs{0}; bool processing{false}; int owner_a{0};
    const void* owner(int i, bool later) { return (i < 2) != (i > 0 && later) ? static_cast<const void*>(&owner_a) : nullptr; }   // entries 1 and 2 change their owner
    bool queued(int i) const { return std::any_of(pending.begin(), pending.end(), [&](auto& d) { return d.entry == i; }); }
    void model_add(Due d) { pending.insert(std::upper_bound(pending.begin(), pending.end(), d, [](auto& a, auto& b) { return a.until < b.until; }), d); }
    void reg(int i, int until, Then then)      // until 0: immediate
    {
        const void* o = owner(i, until > now); model_add({i, until, then, o});
        auto f = [this, i, until, then](TP t) { ran(i, until, then, t); };
        if (until == 0) q.RegisterImmediateEntry(e[std::size_t(i)], f, o); else q.RegisterTimedEntry(e[std::size_t(i)], at(until), f, o);
    }
    void cleanup(const void* o)
    {
        pending.erase(std::remove_if(pending.begin(), pending.end(), [&](auto& d) { return d.owner == o; }), pending.end());
        q.CleanUpOwner(o);
    }
    void ran(int i, int until, Then then, TP t)
    {
        MC_CHECK(processing, "a command runs although nobody processes the queue");
        MC_CHECK(of(t) == now, "a command is told another time than that of the processing");
        MC_CHECK(until <= now, "a command runs before its time");
        if (!queued(i)) { MC_CHECK(false, "a command runs that is not outstanding (already run or cleaned up)"); return; }
        MC_CHECK(pending.front().entry == i, "commands run in another order than that of their times and registration");
        pending.erase(std::find_if(pending.begin(), pending.end(), [&](auto& d) { return d.entry == i; }));
        ++runs;
        int o = (i + 1) % N;
        switch (then)
        {
            case AgainNow: reg(i, 0, Nothing); break;
            case AgainLater: reg(i, now + 1, Nothing); break;
            case OtherNow: if (!queued(o)) reg(o, 0, Nothing); break;
            case OtherLater: if (!queued(o)) reg(o, now + 2, Nothing); break;
            case CleanA: cleanup(&owner_a); break;
            case CleanNull: cleanup(nullptr); break;
            default: break;
        }
    }
    void process(int t)
    {
        now = t; processing = true; TP r = q.ProcessQueue(at(t)); processing = false;
        MC_CHECK(pending.empty() || pending.front().until > now, "a due command was not run");
        MC_CHECK(of(r) == (pending.empty() ? 0 : pending.front().until), "the reported time of the earliest outstanding command is " << of(r) << " instead of " << (pending.empty() ? 0 : pending.front().until));
    }
    static constexpr int kTimes[] = {0, 1, 2};    // 0: immediate; otherwise after now + n - 1 (so 1 is due at once)
    static int ops() { return N * 3 * kThen + 2 + 3; }
    static std::string name(int o)
    {
        static const char* th[] = {"", ", again at once", ", again later", ", then the next one at once", ", then the next one later", ", then clean up owner A", ", then clean up the ownerless"};
        static const char* w[] = {"immediately", "due now", "due in 1"};
        if (o < N * 3 * kThen) return "register entry " + std::to_string(o / (3 * kThen)) + " " + w[o / kThen % 3] + th[o % kThen];
        o -= N * 3 * kThen;
        if (o < 2) return o ? "clean up the ownerless" : "clean up owner A";
        return "process, time +" + std::to_string(o - 2);
    }
    bool apply(int o) override
    {
        if (o < N * 3 * kThen)
        {
            int i = o / (3 * kThen), w = o / kThen % 3;
            if (queued(i)) return false;
            reg(i, w == 0 ? 0 : now + w - 1, Then(o % kThen));
            return true;
        }
        o -= N * 3 * kThen;
        if (o < 2) cleanup(o ? nullptr : &owner_a); else process(now + o - 2);
        return true;
    }
    std::string canon() override { std::string s; for (auto& d : pending) s += char('0' + d.entry) + std::to_string(d.until ? d.until - now : -9) + char('a' + d.then) + (d.owner ? 'A' : '0') + ' '; return s; }
    void finish() override
    {
        for (int t = 0; t < 4; ++t) process(now + 1);       // everything runs in the end, in order
        MC_CHECK(pending.empty() || pending.back().until > now, "a command never runs");
        cleanup(&owner_a); cleanup(nullptr); process(now + 100);
    }
    ~Hist() override { q.CleanUpOwner(&owner_a); q.CleanUpOwner(nullptr); }
};

// ---- registration from other threads while the queue is processed ------------------------------------------------------
struct Spec { int until; bool again; };
void threads(const char* name, mc::Config cfg, std::vector<std::vector<Spec>> regs, std::vector<int> times)
{
    mc::explore(name, cfg, [=] {
        struct Item { Q::Entry e; int until{0}, due{0}, runs{0}, begin{0}, from{-1}; bool again{false}; };    // begin, from: logical times at which its registration began and was complete
        Q q; std::vector<std::vector<Item>> items; int clock = 0, now = 0; std::vector<Item*> order;
        for (auto& v : regs) items.emplace_back(v.size());
        std::function<void(Item&, int)> add = [&](Item& i, int until) {
            auto f = [&, until](TP t) {
                mc::ghost(&clock);
                MC_CHECK(until <= of(t) && of(t) == now, "a command runs before its time or is told another time");
                MC_CHECK(++i.runs == 1, "a command runs twice");
                order.push_back(&i);
                if (i.again) { i.again = false; i.runs = 0; i.from = -1; add(i, now + 1); i.due = now + 1; i.begin = clock; i.from = ++clock; }
            };
            if (until == 0) q.RegisterImmediateEntry(i.e, f, &q); else q.RegisterTimedEntry(i.e, at(until), f, &q);
        };
        mc::race_check(&q, sizeof q, "queue"); for (auto& v : items) for (auto& i : v) mc::race_check(&i.e, sizeof i.e, "entry");
        std::vector<int> t;
        for (std::size_t k = 0; k < regs.size(); ++k)
            t.push_back(mc::spawn([&, k] { for (std::size_t j = 0; j < regs[k].size(); ++j) {
                auto& i = items[k][j]; { mc::ghost(&clock); i.again = regs[k][j].again; i.due = regs[k][j].until; i.begin = ++clock; }
                add(i, regs[k][j].until); { mc::ghost(&clock); if (i.runs == 0 && i.from < 0) i.from = ++clock; } } }, "registrar"));
        auto process = [&](int at_time) {
            int start; std::vector<Item*> before;
            { mc::ghost(&clock); now = at_time; start = clock; order.clear(); for (auto& v : items) for (auto& i : v) if (i.from > 0 && i.from <= start && i.runs == 0) before.push_back(&i); }
            struct Was { Item* i; int due, begin, from; }; std::vector<Was> due; for (auto* i : before) due.push_back({i, i->due, i->begin, i->from});
            int r = of(q.ProcessQueue(at(at_time)));
            mc::ghost(&clock);
            auto pos = [&](Item* i) { return std::find(order.begin(), order.end(), i) - order.begin(); };
            for (auto& w : due)
            {
                if (w.due > at_time) { MC_CHECK(r != 0 && r <= w.due, "the reported time " << r << " is later than that of an outstanding command due at " << w.due); continue; }
                MC_CHECK(pos(w.i) < std::ptrdiff_t(order.size()), "a due command was not run");
                for (auto& x : due)     // registrations that overlapped may go either way
                    if (w.due < x.due || (w.due == x.due && w.from < x.begin)) MC_CHECK(x.due > at_time || pos(w.i) < pos(x.i), "commands run in another order than that of their times and registration");
            }
        };
        for (int x : times) process(x);
        for (int x : t) mc::join(x);
        process(50); process(100);
        std::size_t n = 0; for (auto& v : items) for (auto& i : v) { MC_CHECK(i.runs == 1, "a command ran " << i.runs << " times instead of once"); ++n; }
        q.CleanUpOwner(&q);
    });
}
// An entry is free for its next use as soon as its command runs, also from another thread.
void reuse(const char* name, mc::Config cfg)
{
    mc::explore(name, cfg, [] {
        Q q; Q::Entry e; std::atomic<int> ran{0}; int regs = 0;
        mc::race_check(&q, sizeof q, "queue"); mc::race_check(&e, sizeof e, "entry");
        int t = mc::spawn([&] {
            for (int n = 0; n < 3 && ran.load() == n; ++n)
            {
                { mc::ghost(&regs); ++regs; }
                q.RegisterImmediateEntry(e, [&, n](TP) { MC_CHECK(ran.load() == n, "a command runs twice"); ran = n + 1; }, &q);
            }
        }, "registrar");
        for (int i = 0; i < 3; ++i) q.ProcessQueue(at(1));
        mc::join(t);
        q.ProcessQueue(at(1));
        MC_CHECK(ran.load() == regs, "a command ran " << ran.load() << " times after " << regs << " registrations");
        MC_CHECK(q.ProcessQueue(at(2)) == TP{}, "an outstanding command is reported although there is none");
    });
}
}

MC_CASE(P03, histories)
{
    mc::bfs("histories", {mc::tier(5, 7)}, Hist::ops(), Hist::name, [] { return std::unique_ptr<mc::System>(new Hist); });
}
MC_CASE(P03, threads)
{
    threads("two registrars, different times", {mc::tier(5, 99)}, {{{0, false}, {2, false}}, {{1, false}, {0, false}}}, {1, 2});
    threads("one registrar, a repeating command", {mc::tier(9, 99)}, {{{1, true}, {0, true}}}, {0, 1, 2});
    threads("two registrars at the same time", {mc::tier(5, 99)}, {{{1, false}, {1, false}}, {{1, false}, {1, true}}}, {1, 2});
    reuse("an entry is used again", {mc::tier(9, 99)});
    if (mc::thorough()) threads("three registrars", {9}, {{{1, false}}, {{2, true}}, {{0, false}}}, {1, 2});
}
