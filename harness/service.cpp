// W01: composed services, their containers and decorators under every sequence of building, moving and looking up.
#include "mc.h"
#include "score/mw/service/backend/mw_com/provided_service_builder.h"
#include "score/mw/service/provided_service.h"
#include "score/mw/service/provided_service_container.h"
#include <map>
#include <optional>
#include <sstream>
#include <vector>

namespace
{
namespace svc = score::mw::service;
namespace be = score::mw::service::backend::mw_com;
struct Tok  // a service with identity: exactly one object owns each identity
{
    static std::map<int, int>& owners() { static std::map<int, int> m; return m; }
    int id{-1};
    explicit Tok(int i) : id(i) { ++owners()[id]; }
    Tok(Tok&& o) noexcept : id(o.id) { o.id = -1; }
    Tok& operator=(Tok&& o) noexcept { if (this != &o) { drop(); id = o.id; o.id = -1; } return *this; }
    Tok(const Tok&) = delete;
    Tok& operator=(const Tok&) = delete;
    virtual ~Tok() { drop(); }
    void drop() { if (id >= 0) { --owners()[id]; id = -1; } }
};
struct SubTok : Tok { using Tok::Tok; };
template <class T> struct OtherDecorator : svc::ProvidedService {};
using Deco = be::ProvidedServiceDecorator<Tok>;

struct Lookup final : mc::System
{
    static constexpr int kD = 2, kC = 2;
    std::vector<std::optional<Deco>> d{kD};
    std::vector<int> md = std::vector<int>(kD, -2);           // -2: no decorator, -1: decorator without service
    std::unique_ptr<svc::ProvidedServiceBuilder> b;
    int mb{-1};                                               // services added to the builder
    std::vector<std::optional<svc::ProvidedServiceContainer>> c{kC};
    std::vector<int> mcn = std::vector<int>(kC, -2);          // -2: no container, -1: empty container, n: services
    std::vector<const void*> set = std::vector<const void*>(kC, nullptr);
    int next{0};
    Lookup() { Tok::owners().clear(); }
    static constexpr int kOps = 24;
    static std::string name(int op)
    {
        static const char* n[] = {"decorator 0 := new service", "decorator 1 := created derived service", "decorator 0 := empty", "decorator 1 := move of 0", "decorator 0 := move of 1",
                                  "decorator 1 constructed from move of 0", "destroy decorator 0", "destroy decorator 1", "new builder", "with service", "with other service", "container 0 := built", "container 1 := built",
                                  "container 0 := move of 1", "container 1 := move of 0", "container 1 constructed from move of 0", "container 0 default", "destroy container 0", "destroy container 1",
                                  "start 0", "stop 0", "start 1", "stop 1", "build and drop"};
        return n[op];
    }
    bool take(int dst, int src, bool construct)
    {
        if (construct) { if (!d[src]) return false; Deco t(std::move(*d[src])); d[dst].reset(); md[dst] = -2; d[dst].emplace(std::move(t)); md[dst] = md[src]; }
        else { if (!d[src] || !d[dst]) return false; *d[dst] = std::move(*d[src]); md[dst] = md[src]; }
        md[src] = -1;
        return true;
    }
    bool ctake(int dst, int src, bool construct)
    {
        if (!c[src]) return false;
        if (construct) { svc::ProvidedServiceContainer t(std::move(*c[src])); c[dst].reset(); c[dst].emplace(std::move(t)); }
        else { if (!c[dst]) return false; *c[dst] = std::move(*c[src]); }
        mcn[dst] = mcn[src]; set[dst] = set[src]; mcn[src] = -1; set[src] = nullptr;
        return true;
    }
    bool apply(int op) override
    {
        switch (op)
        {
            case 0: if (next > 6) return false; d[0].emplace(Tok(next)); md[0] = next++; return true;
            case 1: if (next > 6) return false; d[1].emplace(Deco::Create<SubTok>(next)); md[1] = next++; return true;
            case 2: d[0].emplace(); md[0] = -1; return true;
            case 3: return take(1, 0, false);
            case 4: return take(0, 1, false);
            case 5: return take(1, 0, true);
            case 6: case 7: if (!d[op - 6]) return false; d[op - 6].reset(); md[op - 6] = -2; return true;
            case 8: b = std::make_unique<svc::ProvidedServiceBuilder>(); mb = 0; return true;
            case 9: if (mb < 0 || mb > 2) return false; MC_CHECK(&b->With(Tok(100)) == b.get(), "the builder does not return itself"); ++mb; return true;
            case 10: if (mb < 0 || mb > 2) return false; b->With(Tok(101)).With(SubTok(102)); mb += 2; return true;
            case 11: case 12: if (mb < 0) return false; c[op - 11].emplace(b->GetServices()); mcn[op - 11] = mb; set[op - 11] = services(op - 11); b.reset(); mb = -1; return true;
            case 13: return ctake(0, 1, false);
            case 14: return ctake(1, 0, false);
            case 15: return ctake(1, 0, true);
            case 16: c[0].emplace(); mcn[0] = -1; set[0] = nullptr; return true;
            case 17: case 18: if (!c[op - 17]) return false; c[op - 17].reset(); mcn[op - 17] = -2; set[op - 17] = nullptr; return true;
            case 19: case 20: case 21: case 22: { auto& x = c[(op - 19) / 2]; if (!x) return false; (op - 19) % 2 ? x->StopServices() : x->StartServices(); return true; }
            case 23: if (mb < 0) return false; { auto x = b->GetServices(); MC_CHECK(x.NumServices() == static_cast<std::size_t>(mb), "a container built from " << mb << " services reports " << x.NumServices()); } b.reset(); mb = -1; return true;
        }
        return false;
    }
    const void* services(int i) { return static_cast<const void*>(c[i]->GetServices<be::ProvidedServiceDecorator>()); }
    std::string canon() override
    {
        std::map<int, int> want;
        for (int i = 0; i < kD; ++i)
        {
            if (md[i] >= 0) want[md[i]] = 1;
            if (!d[i]) continue;
            Tok* t = d[i]->GetService();
            MC_CHECK((t != nullptr) == (md[i] >= 0), "decorator " << i << (t ? " still refers to a service after it was moved away" : " lost its service"));
            if (t) MC_CHECK(t->id == md[i], "decorator " << i << " refers to service " << t->id << " instead of " << md[i]);
            const Deco& cd = *d[i]; svc::ProvidedService& base = *d[i]; const svc::ProvidedService& cbase = *d[i];
            MC_CHECK(cd.GetService() == t && base.GetServicePtr() == static_cast<void*>(t) && cbase.GetServicePtr() == static_cast<const void*>(t), "the lookups of decorator " << i << " disagree");
            base.StartService(); base.StopService();
        }
        for (auto& [id, n] : Tok::owners())
        {
            const int w = want.count(id) ? 1 : 0;
            if (id < 100) MC_CHECK(n == w, "service " << id << " exists " << n << " times, expected " << w);
        }
        for (int i = 0; i < kC; ++i)
        {
            if (!c[i]) continue;
            const auto& cc = *c[i];
            MC_CHECK(cc.NumServices() == static_cast<std::size_t>(std::max(0, mcn[i])), "container " << i << " reports " << cc.NumServices() << " services, it was built from " << mcn[i]);
            MC_CHECK(services(i) == set[i] && static_cast<const void*>(cc.GetServices<be::ProvidedServiceDecorator>()) == set[i], "container " << i << " holds another set of services than the one moved into it");
            MC_CHECK((set[i] != nullptr) == (mcn[i] >= 0), "container " << i << (set[i] ? " keeps services that were moved away" : " lost its services"));
            MC_CHECK(c[i]->GetServices<OtherDecorator>() == nullptr && cc.GetServices<OtherDecorator>() == nullptr, "services are found under a decorator they were not composed with");
            if (set[i]) MC_CHECK(c[i]->GetServices<be::ProvidedServiceDecorator>()->Count() == static_cast<std::size_t>(mcn[i]), "the set in container " << i << " counts wrongly");
        }
        std::ostringstream o;
        for (int x : md) o << (x < 0 ? x : 1) << ",";
        o << mb << "|"; for (int x : mcn) o << x << ",";
        o << (next > 6);
        return o.str();
    }
};

// The set itself: adding, swapping and moving.
struct Sets final : mc::System
{
    using S = svc::ProvidedServices<be::ProvidedServiceDecorator>;
    S a, b; int na{0}, nb{0}; bool va{true}, vb{true};
    static std::string name(int op) { static const char* n[] = {"a.Add", "b.Add", "a = a.Add() && style", "swap", "a := move of b", "b := move of a", "a := fresh", "b := fresh", "start/stop"}; return n[op]; }
    bool apply(int op) override
    {
        switch (op)
        {
            case 0: if (!va || na > 3) return false; MC_CHECK(&a.Add<Tok>(1) == &a, "Add does not return the set"); ++na; return true;
            case 1: if (!vb || nb > 3) return false; b.Add<Tok>(1).Add<SubTok>(2); nb += 2; return true;
            case 2: if (na > 3) return false; a = S{}.Add<Tok>(3).Add<Tok>(4); na = 2; va = true; return true;
            case 3: if (!va || !vb) return false; a.Swap(b); std::swap(na, nb); return true;
            case 4: if (!vb) return false; a = std::move(b); na = nb; va = true; vb = false; return true;
            case 5: if (!va) return false; b = std::move(a); nb = na; vb = true; va = false; return true;
            case 6: a = S{}; na = 0; va = true; return true;
            case 7: b = S{}; nb = 0; vb = true; return true;
            case 8: a.StartAll(); b.StartAll(); a.StopAll(); b.StopAll(); return true;
        }
        return false;
    }
    std::string canon() override
    {
        if (va) MC_CHECK(a.Count() == static_cast<std::size_t>(na), "set a counts " << a.Count() << " services, " << na << " were added");
        if (vb) MC_CHECK(b.Count() == static_cast<std::size_t>(nb), "set b counts " << b.Count() << " services, " << nb << " were added");
        return std::to_string(na * va) + "," + std::to_string(nb * vb) + "," + std::to_string(va) + std::to_string(vb);
    }
};
}  // namespace
MC_CASE(W01, containers) { mc::BfsConfig c; c.max_depth = mc::tier(30, 60); mc::bfs("containers", c, Lookup::kOps, Lookup::name, [] { return std::make_unique<Lookup>(); }); }
MC_CASE(W01, sets) { mc::BfsConfig c; mc::bfs("sets", c, 9, Sets::name, [] { return std::make_unique<Sets>(); }); }
