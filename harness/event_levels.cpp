// E04: ASIL-B communication is unaffected by QM consumers that exceed what they announced.
#include "event_world.h"
#include <algorithm>

namespace
{
// A QM consumer that takes references to everything it can find and may never give them back.
struct Rogue
{
    World& w; Channel& ch;
    std::optional<lola::ConsumerEventDataControlLocalView<>> view;
    std::optional<lola::TransactionLogRegistrationGuard> guard;
    std::vector<int> held;
    Rogue(World& world, Channel& c, int id) : w(world), ch(c)
    {
        view.emplace(c.ctl->data_control);
        auto g = c.ctl->transaction_log_set_.RegisterProxyElement(static_cast<lola::TransactionLogId>(200 + id), *view);
        guard.emplace(std::move(g.value()));
    }
    bool grab(std::uint32_t upper)
    {
        auto s = view->ReferenceNextEvent(0, upper);
        if (s) held.push_back(*s);
        return s.has_value();
    }
    ~Rogue() { for (int s : held) view->DereferenceEvent(static_cast<lola::SlotIndexType>(s)); }
};

struct Levels final : mc::System
{
    int n;
    World w; Channel qm, b; Producer p; Consumer bc; Rogue q;
    struct Slot { int qrefs{0}, brefs{0}; std::uint32_t ts{0}; bool writing{false}; std::uint32_t qts{0}; bool qwriting{false}; };
    std::vector<Slot> m; std::uint32_t last{0}; bool cut{false}; int inflight{-1};
    Levels(int slots, int bmax) : n(slots), w(slots), qm((arena(0).reset(), arena(0)), slots, 4), b(arena(0), slots, 4), p(w, qm, &b), bc(w, b, 0, bmax), q(w, qm, 1), m(slots) {}
    static std::string name(int op)
    {
        const char* s[] = {"allocate", "publish", "discard", "ASIL-B get 1", "ASIL-B get 2", "ASIL-B release", "QM grabs newest", "QM grabs oldest it can", "QM releases first"};
        return s[op];
    }
    bool apply(int op) override
    {
        switch (op)
        {
            case 0:
            {
                if (inflight >= 0) return false;
                // joint allocation
                int j = -1; bool mism = false;
                for (int i = 0; i < n; ++i)
                {
                    auto& s = m[i];
                    if (s.ts == 0 && !s.writing && (s.qts != 0 || s.qwriting)) mism = true;
                    if (!s.writing && !s.qwriting && s.qrefs == 0 && s.brefs == 0 && (j < 0 || s.ts < m[j].ts)) j = i;
                }
                bool expect_cut = cut || j < 0 || mism;
                int bfree = -1;
                if (expect_cut) for (int i = 0; i < n; ++i) { auto& s = m[i]; if (!s.writing && s.brefs == 0 && (bfree < 0 || s.ts < m[bfree].ts)) bfree = i; }
                auto r = p.comp->AllocateNextSlot();
                MC_CHECK(r.qm_misbehaved == expect_cut, "QM reported " << (r.qm_misbehaved ? "" : "not ") << "misbehaving, expected " << expect_cut);
                MC_CHECK(p.comp->IsQmControlDisconnected() == expect_cut, "QM side " << (expect_cut ? "not " : "") << "disconnected");
                const int want = expect_cut ? bfree : j;
                MC_CHECK(r.allocated_slot_index.has_value() == (want >= 0), "ASIL-B allocation " << (r.allocated_slot_index ? "succeeded" : "failed although a slot is free for ASIL-B"));
                if (mc::failed()) return true;
                cut = expect_cut;
                if (!r.allocated_slot_index) return true;
                const int s = *r.allocated_slot_index;
                MC_CHECK(m[s].ts == m[want].ts && m[s].brefs == 0 && !m[s].writing, "allocated slot holds sample " << m[s].ts << " with " << m[s].brefs << " ASIL-B users, expected the oldest unused " << m[want].ts);
                if (!cut) MC_CHECK(m[s].qrefs == 0, "allocated a slot a QM consumer holds while QM is connected");
                m[s].writing = true; m[s].ts = 0; if (!cut) { m[s].qwriting = true; m[s].qts = 0; }
                w.published[s] = 0; w.payload[s].v = 0xdead0000; inflight = s;
                return true;
            }
            case 1: if (inflight < 0) return false; p.fill(inflight); p.ready(inflight); m[inflight].writing = false; m[inflight].ts = p.ts; if (!cut) { m[inflight].qwriting = false; m[inflight].qts = p.ts; } inflight = -1; return true;
            case 2: if (inflight < 0) return false; p.comp->Discard(static_cast<lola::SlotIndexType>(inflight)); m[inflight].writing = false; if (!cut) m[inflight].qwriting = false; inflight = -1; return true;
            case 3: case 4:
            {
                const int want_n = op - 2; if (static_cast<int>(bc.held.size()) + want_n > bc.max) return false;
                const std::size_t was = bc.held.size();
                std::vector<std::uint32_t> f; for (auto& s : m) if (!s.writing && s.ts > last) f.push_back(s.ts);
                std::sort(f.begin(), f.end()); if (static_cast<int>(f.size()) > want_n) f.erase(f.begin(), f.end() - want_n);
                int g = bc.get(static_cast<std::size_t>(want_n));
                MC_CHECK(g == static_cast<int>(f.size()), "ASIL-B consumer got " << g << " samples instead of " << f.size());
                if (mc::failed()) return true;
                for (int i = 0; i < g; ++i) { MC_CHECK(bc.held[was + i].ts == f[i], "ASIL-B consumer got sample " << bc.held[was + i].ts << " instead of " << f[i]); m[bc.held[was + i].slot].brefs++; }
                if (!f.empty()) last = f.back();
                return true;
            }
            case 5: if (bc.held.empty()) return false; m[bc.held.front().slot].brefs--; bc.release(); return true;
            case 6: case 7:
            {
                if (q.held.size() >= static_cast<std::size_t>(n + 1)) return false;
                std::uint32_t up = lola::EventSlotStatus::TIMESTAMP_MAX;
                if (op == 7) { up = 0; for (auto& s : m) if (!s.qwriting && s.qts && s.qrefs == 0 && (up == 0 || s.qts < up)) up = s.qts; if (!up) return false; ++up; }
                int best = -1; for (int i = 0; i < n; ++i) if (!m[i].qwriting && m[i].qts && m[i].qts < up && (best < 0 || m[i].qts > m[best].qts)) best = i;
                if (best >= 0 && m[best].qrefs) return false;  // one consumer never takes the same sample twice
                bool g = q.grab(up);
                MC_CHECK(g == (best >= 0), "QM consumer " << (g ? "got" : "did not get") << " a sample");
                if (!g || mc::failed()) return false;
                MC_CHECK(q.held.back() == best, "QM consumer got slot " << q.held.back() << " instead of " << best);
                m[best].qrefs++; return true;
            }
            case 8: { if (q.held.empty()) return false; int s = q.held.front(); q.view->DereferenceEvent(static_cast<lola::SlotIndexType>(s)); q.held.erase(q.held.begin()); m[s].qrefs--; return true; }
        }
        return false;
    }
    std::string canon() override
    {
        std::vector<std::uint32_t> t{0, last}; for (auto& s : m) { t.push_back(s.ts); t.push_back(s.qts); }
        std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
        auto rk = [&](std::uint32_t x) { return std::lower_bound(t.begin(), t.end(), x) - t.begin(); };
        std::ostringstream o; o << cut << inflight << "l" << rk(last);
        for (int i = 0; i < n; ++i)
        {
            auto& s = m[i];
            lola::EventSlotStatus sq{qm.ctl->data_control.state_slots_[i].load()}, sb{b.ctl->data_control.state_slots_[i].load()};
            MC_CHECK(sb.IsInWriting() == s.writing, "ASIL-B slot " << i << " write state wrong");
            MC_CHECK(sq.IsInWriting() == s.qwriting, "QM slot " << i << " write state wrong");
            if (!s.writing) MC_CHECK(sb.GetTimeStamp() == s.ts && static_cast<int>(sb.GetReferenceCount()) == s.brefs, "ASIL-B slot " << i << ": sample " << sb.GetTimeStamp() << " users " << sb.GetReferenceCount() << ", expected " << s.ts << "/" << s.brefs);
            if (!s.qwriting) MC_CHECK(sq.GetTimeStamp() == s.qts && static_cast<int>(sq.GetReferenceCount()) == s.qrefs, "QM slot " << i << ": sample " << sq.GetTimeStamp() << " users " << sq.GetReferenceCount() << ", expected " << s.qts << "/" << s.qrefs);
            if (sb.GetTimeStamp() == s.ts && !s.writing && s.ts) MC_CHECK(p.comp->GetEventSlotTimestamp(static_cast<lola::SlotIndexType>(i)) == s.ts, "slot time stamp");
            o << " " << rk(s.ts) << s.writing << s.brefs << "q" << rk(s.qts) << s.qwriting << s.qrefs;
        }
        bc.check_all("at any time");
        o << "h"; for (auto& h : bc.held) o << h.slot; o << "g"; for (int s : q.held) o << s;
        return o.str();
    }
    void finish() override { bc.held.clear(); }
};

// A QM process that writes any value into the QM slot words it can reach; only the ASIL-B level is judged.
struct Corrupt final : mc::System
{
    int n; World w; Channel qm, b; Producer p; Consumer bc; std::vector<int> inflight; std::vector<std::uint32_t> ts; std::vector<int> refs; std::vector<char> writing; std::uint32_t last{0};
    static constexpr int kValues = 5;
    Corrupt(int slots, int bmax) : n(slots), w(slots), qm((arena(0).reset(), arena(0)), slots, 4), b(arena(0), slots, 4), p(w, qm, &b), bc(w, b, 0, bmax), ts(slots), refs(slots), writing(slots) {}
    std::uint64_t value(int v)
    {
        switch (v) { case 0: return 0; case 1: return 0xffffffffu; case 2: return ~0ull; case 3: return (std::uint64_t{p.ts + 3} << 32); default: return (std::uint64_t{1} << 32) | 1u; }
    }
    static std::string name(int op)
    {
        const char* s[] = {"allocate", "publish", "discard", "ASIL-B get", "ASIL-B release"};
        if (op < 5) return s[op];
        const char* v[] = {"invalid", "in writing", "all ones", "future sample", "old sample, referenced"};
        return std::string("QM slot ") + std::to_string((op - 5) / kValues) + " := " + v[(op - 5) % kValues];
    }
    bool apply(int op) override
    {
        switch (op)
        {
            case 0:
            {
                if (inflight.size() >= 2) return false;
                bool any = false; for (int i = 0; i < n; ++i) any |= !writing[i] && refs[i] == 0;
                auto r = p.comp->AllocateNextSlot();
                MC_CHECK(r.allocated_slot_index.has_value() == any, "ASIL-B allocation " << (any ? "fails although a slot is free" : "succeeds although no slot is free"));
                if (mc::failed() || !any) return !mc::failed();
                const int s = *r.allocated_slot_index;
                MC_CHECK(s >= 0 && s < n && !writing[s] && refs[s] == 0, "the provider gets slot " << s << " which is in use at the ASIL-B level");
                if (mc::failed()) return true;
                writing[s] = 1; ts[s] = 0; w.published[s] = 0; w.payload[s].v = 0xdead0000u; inflight.push_back(s);
                return true;
            }
            case 1: { if (inflight.empty()) return false; int s = inflight.front(); inflight.erase(inflight.begin()); p.fill(s); p.ready(s); writing[s] = 0; ts[s] = p.ts; return true; }
            case 2: { if (inflight.empty()) return false; int s = inflight.front(); inflight.erase(inflight.begin()); p.comp->Discard(static_cast<lola::SlotIndexType>(s)); writing[s] = 0; return true; }
            case 3:
            {
                if (static_cast<int>(bc.held.size()) >= bc.max) return false;
                std::uint32_t newest = 0; for (int i = 0; i < n; ++i) if (!writing[i]) newest = std::max(newest, ts[i]);
                const auto was = bc.held.size(); const int g = bc.get(1);
                MC_CHECK(g == (newest > last ? 1 : 0), "ASIL-B consumer got " << g << " samples");
                if (mc::failed()) return true;
                if (g) { MC_CHECK(bc.held[was].ts == newest, "ASIL-B consumer got sample " << bc.held[was].ts << " instead of " << newest); refs[bc.held[was].slot]++; last = newest; }
                return true;
            }
            case 4: if (bc.held.empty()) return false; refs[bc.held.front().slot]--; bc.release(); return true;
            default: qm.ctl->data_control.state_slots_[(op - 5) / kValues].store(value((op - 5) % kValues)); return true;
        }
    }
    std::string canon() override
    {
        std::vector<std::uint32_t> t{0, last}; for (auto x : ts) t.push_back(x);
        std::vector<lola::EventSlotStatus> q; for (int i = 0; i < n; ++i) { q.emplace_back(qm.ctl->data_control.state_slots_[i].load()); t.push_back(q[i].GetTimeStamp()); }
        std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
        auto rk = [&](std::uint32_t x) { return std::lower_bound(t.begin(), t.end(), x) - t.begin(); };
        std::ostringstream o; o << p.comp->IsQmControlDisconnected() << "l" << rk(last) << "i"; for (int s : inflight) o << s;
        for (int i = 0; i < n; ++i)
        {
            lola::EventSlotStatus sb{b.ctl->data_control.state_slots_[i].load()};
            MC_CHECK(sb.IsInWriting() == (writing[i] != 0), "ASIL-B slot " << i << " write state wrong");
            if (!writing[i]) MC_CHECK(sb.GetTimeStamp() == ts[i] && static_cast<int>(sb.GetReferenceCount()) == refs[i], "ASIL-B slot " << i << ": sample " << sb.GetTimeStamp() << " users " << sb.GetReferenceCount() << ", expected " << ts[i] << "/" << refs[i]);
            o << " " << rk(ts[i]) << int(writing[i]) << refs[i] << "q" << rk(q[i].GetTimeStamp()) << "," << q[i].GetReferenceCount();
        }
        bc.check_all("at any time");
        o << "h"; for (auto& h : bc.held) o << h.slot;
        return o.str();
    }
    void finish() override { bc.held.clear(); }
};
void corrupt_conc(const char* name, int slots, int writes, int pre)
{
    mc::explore(name, {pre}, [=] {
        arena(0).reset();
        World w(slots); Channel qm(arena(0), slots, 4), b(arena(0), slots, 4);
        qm.focus_slots(); b.focus_slots();
        Producer p(w, qm, &b); Consumer bc(w, b, 0, 1);
        p.send();
        int v[3], s[3]; for (int i = 0; i < writes; ++i) { v[i] = mc::choose(4, "value"); s[i] = mc::choose(slots, "slot"); }
        mc::spawn([&] { for (int i = 0; i < 3; ++i) p.send(); }, "producer");
        mc::spawn([&] { const std::uint64_t val[] = {0, 0xffffffffu, ~0ull, std::uint64_t{9} << 32}; for (int i = 0; i < writes; ++i) qm.ctl->data_control.state_slots_[s[i]].store(val[v[i]]); }, "QM");
        mc::spawn([&] { bc.get(1); bc.check_all("while held"); }, "ASIL-B");
        mc::join_all();
        MC_CHECK(p.dropped == 0, "an ASIL-B send found no slot because of what a QM process wrote");
        bc.release_all();
        MC_CHECK(p.send(), "ASIL-B send fails after QM writes");
        MC_CHECK(bc.get(1) == 1 && bc.last == p.ts, "ASIL-B consumer does not get the newest sample");
        mc::outcome(std::to_string(bc.last) + (p.comp->IsQmControlDisconnected() ? "cut" : ""));
        bc.release_all();
    });
}
void conc(const char* name, int slots, int bmax, int rogue_grabs, int sends, int pre)
{
    mc::explore(name, {pre}, [=] {
        arena(0).reset();
        World w(slots); Channel qm(arena(0), slots, 4), b(arena(0), slots, 4);
        qm.focus_slots(); b.focus_slots();
        Producer p(w, qm, &b); Consumer bc(w, b, 0, bmax); Rogue q(w, qm, 1);
        mc::spawn([&] { for (int i = 0; i < sends; ++i) p.send(); }, "producer");
        mc::spawn([&] { std::uint32_t up = lola::EventSlotStatus::TIMESTAMP_MAX; std::uint32_t lo = 0; for (int i = 0; i < rogue_grabs; ++i) { auto s = q.view->ReferenceNextEvent(lo, up); if (!s) continue; q.held.push_back(*s); auto t = ts_of(qm.ctl->data_control, *s); if (i == 0 && t > 1) { up = t; } else { up = lola::EventSlotStatus::TIMESTAMP_MAX; lo = t; } if (up != lola::EventSlotStatus::TIMESTAMP_MAX) lo = 0; } }, "QM");
        mc::spawn([&] { for (int i = 0; i < 2; ++i) { bc.get(static_cast<std::size_t>(bmax) - bc.held.size()); if (i == 0 && !bc.held.empty()) bc.release(); } bc.check_all("at the end"); }, "ASIL-B");
        mc::join_all();
        MC_CHECK(p.dropped == 0, "an ASIL-B send found no slot because of a QM consumer");
        bool cut = p.comp->IsQmControlDisconnected();
        mc::outcome(std::to_string(bc.last) + (cut ? "cut" : "") + std::to_string(q.held.size()));
        MC_CHECK(p.send(), "ASIL-B send fails after the QM consumer kept its samples");
        bc.release_all();
        int g = bc.get(1);
        MC_CHECK(g == 1 && bc.last == p.ts, "ASIL-B consumer does not get the newest sample");
        bc.release_all();
    });
}
// Nobody misbehaves: both levels show the same samples and the QM side stays connected.
void mirror(const char* name, int slots, int bcons, int qcons, int sends, mc::Config cfg)
{
    mc::explore(name, cfg, [=] {
        arena(0).reset();
        World w(slots); Channel qm(arena(0), slots, 4), b(arena(0), slots, 4);
        qm.focus_slots(); b.focus_slots();
        Producer p(w, qm, &b);
        std::deque<Consumer> cs;
        for (int i = 0; i < bcons + qcons; ++i) cs.emplace_back(w, i < bcons ? b : qm, i, 1);
        p.send();
        const int last_op = mc::choose(3, "end with");
        std::optional<int> open;
        mc::spawn([&] {
            for (int i = 1; i < sends; ++i) p.send();
            open = p.alloc();
            if (open && last_op == 1) { p.fill(*open); p.ready(*open); open.reset(); }
            if (open && last_op == 2) { p.comp->Discard(static_cast<lola::SlotIndexType>(*open)); open.reset(); }
        }, "producer");
        for (auto& c : cs) mc::spawn([&c] { for (int i = 0; i < 2; ++i) { c.get(1); c.release_all(); } }, "consumer");
        mc::join_all();
        MC_CHECK(p.dropped == 0, "a send found no slot although the slots suffice for all consumers");
        MC_CHECK(!p.comp->IsQmControlDisconnected(), "the QM side is cut off although nobody misbehaved");
        for (int s = 0; s < slots; ++s)
        {
            lola::EventSlotStatus a{qm.ctl->data_control.state_slots_[s].load()}, c{b.ctl->data_control.state_slots_[s].load()};
            MC_CHECK(a.IsInWriting() == c.IsInWriting() && a.IsInvalid() == c.IsInvalid() && (a.IsInWriting() || a.GetTimeStamp() == c.GetTimeStamp()),
                     "slot " << s << " shows sample " << a.GetTimeStamp() << " to QM and " << c.GetTimeStamp() << " to ASIL-B consumers");
            MC_CHECK(a.IsInWriting() == (open.has_value() && *open == s), "slot " << s << " is " << (a.IsInWriting() ? "" : "not ") << "marked as being written");
            MC_CHECK(a.IsInWriting() || (a.GetReferenceCount() == 0 && c.GetReferenceCount() == 0), "slot " << s << " stays referenced");
        }
        mc::outcome(std::to_string(cs.front().last));
    });
}
// An event without an ASIL-B level: there is nothing to protect, nobody is cut off however many samples are kept.
struct QmOnly final : mc::System
{
    World w; Channel qm; Producer p; Rogue q; std::vector<int> open; int n;
    explicit QmOnly(int slots) : w(slots), qm((arena(0).reset(), arena(0)), slots, 4), p(w, qm), q(w, qm, 1), n(slots) {}
    static std::string name(int op) { const char* s[] = {"allocate", "publish", "discard", "consumer takes the newest", "consumer releases"}; return s[op]; }
    bool apply(int op) override
    {
        switch (op)
        {
            case 0:
            {
                auto r = p.comp->AllocateNextSlot();
                MC_CHECK(!r.qm_misbehaved, "consumers of a QM-only event are reported as misbehaving");
                MC_CHECK(!p.comp->IsQmControlDisconnected(), "consumers of a QM-only event are cut off");
                if (!r.allocated_slot_index) return false;
                w.published[*r.allocated_slot_index] = 0; open.push_back(*r.allocated_slot_index); return true;
            }
            case 1: { if (open.empty()) return false; const int s = open.front(); open.erase(open.begin()); p.fill(s); p.ready(s); return true; }
            case 2: { if (open.empty()) return false; p.comp->Discard(static_cast<lola::SlotIndexType>(open.front())); open.erase(open.begin()); return true; }
            case 3:
            {
                std::uint32_t newest = 0; for (auto t : w.published) newest = std::max(newest, t);
                for (int s : q.held) if (newest && w.published[s] == newest) return false;
                if (!newest) return false;
                MC_CHECK(q.grab(lola::EventSlotStatus::TIMESTAMP_MAX), "a consumer does not get the newest sample"); return true;
            }
            default: { if (q.held.empty()) return false; q.view->DereferenceEvent(static_cast<lola::SlotIndexType>(q.held.front())); q.held.erase(q.held.begin()); return true; }
        }
    }
    std::string canon() override
    {
        MC_CHECK(!p.comp->IsQmControlDisconnected(), "consumers of a QM-only event are cut off");
        std::vector<std::uint32_t> t{0}; for (auto x : w.published) t.push_back(x); std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
        std::ostringstream o; for (auto x : w.published) o << std::lower_bound(t.begin(), t.end(), x) - t.begin(); o << "o"; for (int s : open) o << s; o << "h"; for (int s : q.held) o << s; return o.str();
    }
    void finish() override {}
};
}  // namespace
MC_CASE(E04, qm_only) { for (int n : {1, 2, 3}) { mc::BfsConfig c; c.max_depth = mc::tier(20, 60); mc::bfs("event without ASIL-B, " + std::to_string(n) + " slots", c, 5, QmOnly::name, [n] { return std::make_unique<QmOnly>(n); }); } }
MC_CASE(E04, misbehaving_qm_seq) { mc::BfsConfig c; c.max_depth = mc::tier(20, 60); mc::bfs("misbehaving_qm_seq", c, 9, Levels::name, [] { return std::make_unique<Levels>(2, 1); }); }
MC_CASE(E04, misbehaving_qm_seq3) { mc::BfsConfig c; c.max_depth = mc::tier(14, 30); mc::bfs("misbehaving_qm_seq3", c, 9, Levels::name, [] { return std::make_unique<Levels>(3, 2); }); }
MC_CASE(E04, rogue2) { conc("rogue2", 2, 1, 2, 2, mc::tier(3, 4)); }
MC_CASE(E04, rogue3) { conc("rogue3", 3, 1, 2, 3, mc::tier(2, 3)); }
MC_CASE(E04, corrupting_qm) { mc::BfsConfig c; c.max_depth = mc::tier(12, 30); mc::bfs("corrupting_qm", c, 5 + 2 * Corrupt::kValues, Corrupt::name, [] { return std::make_unique<Corrupt>(2, 1); }); }
MC_CASE(E04, corrupting_qm3) { mc::BfsConfig c; c.max_depth = mc::tier(8, 12); mc::bfs("corrupting_qm3", c, 5 + 3 * Corrupt::kValues, Corrupt::name, [] { return std::make_unique<Corrupt>(3, 1); }); }
MC_CASE(E04, corrupt2) { corrupt_conc("corrupt2", 3, mc::tier(1, 2), mc::tier(2, 3)); }
MC_CASE(E04, mirror2) { mirror("mirror2", 2, 1, 0, 3, {mc::tier(4, 6)}); mirror("mirror2_qm", 2, 0, 1, 3, {mc::tier(4, 6)}); }
MC_CASE(E04, mirror3) { mirror("mirror3", 3, 1, 1, 3, {mc::tier(2, 3)}); mirror("mirror3b", 3, 2, 0, 3, {mc::tier(2, 3)}); }
MC_CASE(E04, mirror_spurious) { mc::Config c{mc::tier(2, 4)}; c.spurious_cas = 1; mirror("mirror_spurious", 2, 1, 0, 3, c); }
