// E01 sample exclusivity, E02 delivery, E03 slot availability, under all interleavings.
#include "event_world.h"

namespace
{
void pc(const char* name, mc::Config cfg, int slots, std::vector<int> consumer_max, int sends, int gets, int hold, bool with_b,
        bool must_succeed)
{
    mc::explore(name, cfg, [=] {
        arena(0).reset();
        World w(slots);
        Channel qm(arena(0), slots, 4);
        std::optional<Channel> b;
        if (with_b) b.emplace(arena(0), slots, 4);
        qm.focus_slots();
        if (b) b->focus_slots();
        Producer p(w, qm, b ? &*b : nullptr);
        std::deque<Consumer> cs;
        for (std::size_t i = 0; i < consumer_max.size(); ++i)
            cs.emplace_back(w, (b && i % 2 == 0) ? *b : qm, static_cast<int>(i), consumer_max[i]);
        if (mc::failed()) return;
        mc::spawn([&] { for (int i = 0; i < sends; ++i) p.send(); }, "producer");
        for (auto& c : cs)
            mc::spawn([&c, gets, hold] {
                for (int i = 0; i < gets; ++i)
                {
                    const int room = c.max - static_cast<int>(c.held.size());
                    if (room > 0) c.get(static_cast<std::size_t>(room));
                    while (static_cast<int>(c.held.size()) > hold) c.release();
                }
                c.release_all();
            }, "consumer");
        mc::join_all();
        MC_CHECK(!must_succeed || p.dropped == 0, "a send found no free slot although the slots suffice for all consumers");
        std::string o = "drop" + std::to_string(p.dropped);
        for (auto& c : cs) o += "," + std::to_string(c.last);
        mc::outcome(o);
        // Quiescent: nothing stays referenced.
        for (int s = 0; s < slots; ++s)
            for (Channel* ch : {&qm, b ? &*b : nullptr})
            {
                if (!ch) continue;
                lola::EventSlotStatus st{ch->ctl->data_control.state_slots_[s].load()};
                MC_CHECK(st.IsInvalid() || (!st.IsInWriting() && st.GetReferenceCount() == 0),
                         "slot " << s << " still in use after everything was released");
            }
    });
}
// The slot word itself: every combination of boundary values of time stamp, use count and search limits.
void words(const char* name)
{
    mc::explore(name, {0}, [] {
        using St = lola::EventSlotStatus;
        const std::uint32_t v[] = {0u, 1u, 2u, 3u, 0x7fffu, 0x8000u, 0xffffu, 0x10000u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
        constexpr int N = sizeof(v) / sizeof(v[0]);
        const std::uint32_t ts = v[mc::choose(N, "time stamp")], rc = v[mc::choose(N, "use count")];
        const bool writing = ts == 0 && rc == 0xffffffffu, invalid = ts == 0 && rc == 0;
        St a{ts, rc}, b; b.SetTimeStamp(ts); b.SetReferenceCount(rc);
        const std::uint64_t raw = (std::uint64_t{ts} << 32) | rc;
        St c{raw}; St d{v[(rc + 1) % N], 5}; d = c; St e{c};
        for (St* s : {&a, &b, &c, &d, &e})
        {
            MC_CHECK(s->GetTimeStamp() == ts && s->GetReferenceCount() == rc, "a slot word of sample " << ts << " with " << rc << " users reads as " << s->GetTimeStamp() << " with " << s->GetReferenceCount());
            MC_CHECK(s->IsInvalid() == invalid, "a slot word of sample " << ts << " with " << rc << " users is " << (invalid ? "not " : "") << "invalid");
            MC_CHECK(s->IsInWriting() == writing, "a slot word of sample " << ts << " with " << rc << " users is " << (writing ? "not " : "") << "in writing");
            MC_CHECK(s->IsUsed() == (rc != 0), "a slot word of sample " << ts << " with " << rc << " users is " << (rc ? "not " : "") << "in use");
            for (auto lo : v) for (auto hi : v)
                MC_CHECK(s->IsTimeStampBetween(lo, hi) == (!writing && !invalid && ts > lo && ts < hi), "sample " << ts << " with " << rc << " users is " << (ts > lo && ts < hi ? "not " : "") << "found between " << lo << " and " << hi);
            MC_CHECK(static_cast<St::value_type&>(*s) == raw && static_cast<const St::value_type&>(std::as_const(*s)) == raw, "the word of sample " << ts << " with " << rc << " users changes when stored");
        }
        for (auto n : v) { St x{ts, rc}; x.SetReferenceCount(n); MC_CHECK(x.GetTimeStamp() == ts && x.GetReferenceCount() == n, "changing the use count to " << n << " of sample " << ts << " gives " << x.GetTimeStamp() << " with " << x.GetReferenceCount()); x.SetTimeStamp(n); MC_CHECK(x.GetTimeStamp() == n, "the time stamp is not set"); }
        a.MarkInWriting(); MC_CHECK(a.IsInWriting() && a.IsUsed() && !a.IsInvalid() && a.GetTimeStamp() == 0, "a slot marked as being written is not");
        b.MarkInvalid(); MC_CHECK(b.IsInvalid() && !b.IsUsed() && !b.IsInWriting(), "a slot marked invalid is not");
        MC_CHECK(St{}.IsInvalid(), "a fresh slot is not invalid");
    });
}
}  // namespace

MC_CASE(E01, slot_words) { words("slot_words"); }
MC_CASE(E01, one_consumer) { pc("one_consumer", {mc::tier(3, 5)}, 2, {1}, 3, 2, 1, false, true); }
MC_CASE(E01, two_consumers) { pc("two_consumers", {mc::tier(2, 3)}, 3, {1, 1}, 2, 2, 1, false, true); }
MC_CASE(E01, asil_b_and_qm) { pc("asil_b_and_qm", {mc::tier(2, 3)}, 3, {1, 1}, 2, 1, 1, true, true); }
MC_CASE(E01, spurious) { mc::Config c{mc::tier(2, 3)}; c.spurious_cas = 1; pc("spurious", c, 2, {1}, 2, 2, 1, false, true); }
