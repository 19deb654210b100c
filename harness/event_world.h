// One event's shared control structures, its payload slots, and the oracle for what consumers may observe.
#ifndef VERIF_EVENT_WORLD_H
#define VERIF_EVENT_WORLD_H
#include "arena.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/event_control.h"
#include "score/mw/com/impl/bindings/lola/event_data_control.h"
#include "score/mw/com/impl/bindings/lola/event_data_control_composite.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/sample_ptr.h"
#include "score/mw/com/impl/bindings/lola/slot_collector.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_registration_guard.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_set.h"
#include <deque>
#include <optional>

namespace lola = score::mw::com::impl::lola;

struct Payload { std::uint32_t v; };

inline std::uint32_t ts_of(const lola::EventDataControl& c, std::size_t i)
{
    return lola::EventSlotStatus{c.state_slots_[i].load(std::memory_order_relaxed)}.GetTimeStamp();
}

struct Channel  // one quality level of the event
{
    lola::EventControl* ctl{};
    std::optional<lola::ProviderEventDataControlLocalView<>> prov;
    Channel(Arena& a, int slots, int subs, bool enforce = true)
    {
        ctl = a.construct<lola::EventControl>(static_cast<lola::SlotIndexType>(slots),
                                              static_cast<lola::EventControl::SubscriberCountType>(subs), enforce, a);
        prov.emplace(ctl->data_control);
    }
    explicit Channel(lola::EventControl* c) : ctl(c) { prov.emplace(ctl->data_control); }
    void focus_slots()
    {
        auto& s = ctl->data_control.state_slots_;
        mc::focus(&s[0], s.size() * sizeof(s[0]));
    }
};

struct World
{
    int slots;
    std::vector<Payload> payload;
    std::vector<std::uint32_t> published;   // ghost: slot -> time stamp currently published there (0: none)
    explicit World(int n) : slots(n), payload(n), published(n, 0) {}
};

struct Held { lola::SamplePtr<Payload> p; std::uint32_t ts; int slot; };

struct Consumer
{
    World& w;
    Channel& ch;
    std::optional<lola::ConsumerEventDataControlLocalView<>> view;
    std::optional<lola::TransactionLogRegistrationGuard> guard;
    std::optional<lola::SlotCollector> coll;
    std::deque<Held> held;
    std::uint32_t last{0};
    int max;
    int id;
    Consumer(World& world, Channel& c, int ident, int max_samples) : w(world), ch(c), max(max_samples), id(ident)
    {
        view.emplace(c.ctl->data_control);
        auto g = c.ctl->transaction_log_set_.RegisterProxyElement(static_cast<lola::TransactionLogId>(100 + ident), *view);
        if (!g.has_value()) { mc::violation("consumer could not register although a log is free"); return; }
        guard.emplace(std::move(g.value()));
        coll.emplace(*view, static_cast<std::size_t>(max_samples));
    }
    // Fetches up to n samples, checks order, freshness and content, and keeps them.
    int get(std::size_t n)
    {
        mc::ghost(&w);
        const std::vector<std::uint32_t> before = w.published;
        const std::uint32_t last_before = last;
        auto r = coll->GetNewSamplesSlotIndices(n);
        std::vector<int> idx;
        std::uint32_t lowest = 0xffffffffu;
        int got = 0;
        std::set<int> seen;
        for (auto it = r.begin; it != r.end; ++it)
        {
            const int s = *it;
            MC_CHECK(s >= 0 && s < w.slots, "consumer " << id << " was handed slot " << s);
            const std::uint32_t ts = ts_of(ch.ctl->data_control, s);
            MC_CHECK(ts > last, "consumer " << id << " got sample " << ts << " after sample " << last);
            MC_CHECK(seen.insert(s).second, "slot " << s << " delivered twice in one call");
            last = ts;
            if (lowest == 0xffffffffu) lowest = ts;
            held.push_back({lola::SamplePtr<Payload>(&w.payload[s], *view, *it), ts, s});
            check(held.back(), "on delivery");
            ++got;
        }
        MC_CHECK(got <= static_cast<int>(n), "asked for " << n << " samples, got " << got);
        // Completeness: what was published before the call and is still there may only be missing if it is older than
        // everything delivered and the requested number was reached.
        mc::ghost(&w);
        for (int s = 0; s < w.slots; ++s)
        {
            const auto ts = before[s];
            if (ts <= last_before || w.published[s] != ts || seen.count(s)) continue;
            if (ts_of(ch.ctl->data_control, s) != ts) continue;
            const bool exhausted = got >= static_cast<int>(n) || got >= max;
            MC_CHECK(exhausted && ts < lowest, "consumer " << id << " did not get published sample " << ts << " (got " << got << " of "
                                                   << n << ", lowest " << lowest << ")");
        }
        return got;
    }
    void check(Held& h, const char* when)
    {
        mc::payload_read(&w.payload[h.slot], "sample");
        const std::uint32_t v = w.payload[h.slot].v;
        MC_CHECK(v == h.ts, "consumer " << id << " holds sample " << h.ts << " but " << when << " its content is that of " << v);
        const std::uint32_t ts = ts_of(ch.ctl->data_control, h.slot);
        MC_CHECK(ts == h.ts, "slot " << h.slot << " of sample " << h.ts << " held by consumer " << id << " is reused (time stamp "
                                     << ts << ") " << when);
    }
    void check_all(const char* when) { for (auto& h : held) check(h, when); }
    void release()
    {
        if (held.empty()) return;
        check(held.front(), "before release");
        held.pop_front();
    }
    void release_all() { while (!held.empty()) release(); }
};

struct Producer
{
    World& w;
    std::optional<lola::EventDataControlComposite<>> comp;
    std::uint32_t ts{0};
    int dropped{0};
    Producer(World& world, Channel& qm, Channel* b = nullptr) : w(world)
    {
        if (b) comp.emplace(*qm.prov, &*b->prov); else comp.emplace(*qm.prov);
    }
    std::optional<int> alloc()
    {
        auto r = comp->AllocateNextSlot();
        if (!r.allocated_slot_index.has_value()) { ++dropped; return {}; }
        const int s = *r.allocated_slot_index;
        MC_CHECK(s >= 0 && s < w.slots, "allocated slot " << s);
        mc::ghost(&w);
        w.published[s] = 0;
        mc::payload_write(&w.payload[s], "sample");
        w.payload[s].v = 0xdead0000u;
        return s;
    }
    void fill(int s)
    {
        ++ts;
        mc::payload_write(&w.payload[s], "sample");
        w.payload[s].v = ts;
    }
    void ready(int s)
    {
        comp->EventReady(static_cast<lola::SlotIndexType>(s), ts);
        mc::ghost(&w);
        w.published[s] = ts;
    }
    bool send()
    {
        auto s = alloc();
        if (!s) return false;
        fill(*s);
        ready(*s);
        return true;
    }
};
#endif
