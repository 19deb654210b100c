// T03: a trace point is traced exactly if it is configured, for every filter, document and kind of point.
#include "fake_runtime.h"
#include "score/json/json_parser.h"
#include "score/mw/com/impl/configuration/config_parser.h"
#include "score/mw/com/impl/configuration/configuration.h"
#include "score/mw/com/impl/instance_identifier.h"
#include "score/mw/com/impl/plumbing/sample_allocatee_ptr.h"
#include "score/mw/com/impl/plumbing/sample_ptr.h"
#include "score/mw/com/impl/proxy_event_binding.h"
#include "score/mw/com/impl/skeleton_event_binding.h"
#include "score/mw/com/impl/tracing/configuration/hash_helper_utility.h"
#include "score/mw/com/impl/tracing/configuration/tracing_filter_config.h"
#include "score/mw/com/impl/tracing/configuration/tracing_filter_config_parser.h"
#include "score/mw/com/impl/tracing/configuration/trace_point_key.h"
#include "score/mw/com/impl/tracing/proxy_event_tracing.h"
#include "score/mw/com/impl/tracing/skeleton_event_tracing.h"
#include "score/mw/com/impl/tracing/trace_error.h"
#include <set>
#include <sstream>

namespace
{
namespace impl = score::mw::com::impl;
namespace tr = score::mw::com::impl::tracing;
using SE = tr::SkeletonEventTracePointType;
using SF = tr::SkeletonFieldTracePointType;
using PE = tr::ProxyEventTracePointType;
using PF = tr::ProxyFieldTracePointType;

enum Kind { kSE, kSF, kPE, kPF };
constexpr int kTypes[4] = {2, 6, 11, 15};   // valid values are 1..n
const char* kKind[4] = {"provider event", "provider field", "consumer event", "consumer field"};
bool enabled(const tr::ITracingFilterConfig& c, std::string_view s, std::string_view e, std::string_view i, int kind, int type)
{
    switch (kind)
    {
        case kSE: return c.IsTracePointEnabled(s, e, i, static_cast<SE>(type));
        case kSF: return c.IsTracePointEnabled(s, e, i, static_cast<SF>(type));
        case kPE: return c.IsTracePointEnabled(s, e, i, static_cast<PE>(type));
        default: return c.IsTracePointEnabled(s, e, i, static_cast<PF>(type));
    }
}
void add(tr::TracingFilterConfig& c, std::string_view s, std::string_view e, std::string_view i, int kind, int type)
{
    // Names are handed over in buffers that do not live on; only the instance specifier must.
    std::string a(s), b(e);
    switch (kind)
    {
        case kSE: c.AddTracePoint(a, b, i, static_cast<SE>(type)); break;
        case kSF: c.AddTracePoint(a, b, i, static_cast<SF>(type)); break;
        case kPE: c.AddTracePoint(a, b, i, static_cast<PE>(type)); break;
        default: c.AddTracePoint(a, b, i, static_cast<PF>(type)); break;
    }
    std::fill(a.begin(), a.end(), '#'); std::fill(b.begin(), b.end(), '#');
}
struct Point { int name, inst, kind, type; bool operator<(const Point& o) const { return std::tie(name, inst, kind, type) < std::tie(o.name, o.inst, o.kind, o.type); } };
const std::pair<const char*, const char*> kNames[] = {{"a", "bc"}, {"ab", "c"}, {"a", "b"}, {"b", "a"}, {"abc", ""}, {"/a/long/service/type/name/beyond/small/strings", "a_long_element_name_beyond_small_strings"}};
const std::string kInst[] = {"x", "xy", "a/rather/long/instance/specifier/beyond/small/strings"};

struct FilterSys final : mc::System
{
    std::unique_ptr<tr::TracingFilterConfig> c{std::make_unique<tr::TracingFilterConfig>()};
    std::set<Point> m;
    int moves{0};
    static std::vector<Point>& points() { static std::vector<Point> p; return p; }
    static std::string name(int op)
    {
        if (op >= static_cast<int>(points().size())) return "move";
        const Point& p = points()[op];
        return std::string("add ") + kNames[p.name].first + "." + kNames[p.name].second + " of " + kInst[p.inst] + " " + kKind[p.kind] + std::to_string(p.type);
    }
    bool apply(int op) override
    {
        if (op < static_cast<int>(points().size()))
        {
            const Point& p = points()[op];
            add(*c, kNames[p.name].first, kNames[p.name].second, kInst[p.inst], p.kind, p.type);
            m.insert(p);
        }
        else { if (moves) return false; ++moves; c = std::make_unique<tr::TracingFilterConfig>(std::move(*c)); }
        for (auto& p : points())
        {
            const bool got = enabled(*c, kNames[p.name].first, kNames[p.name].second, kInst[p.inst], p.kind, p.type);
            MC_CHECK(got == (m.count(p) != 0), "trace point '" << name(static_cast<int>(&p - points().data())).substr(4) << "' is " << (got ? "enabled without being configured" : "not enabled although configured"));
        }
        return true;
    }
    std::string canon() override { std::ostringstream o; for (auto& p : m) o << p.name << p.inst << p.kind << ',' << p.type << ';'; o << moves; return o.str(); }
    void finish() override {}
};

void filters()
{
    auto run = [](const char* name, std::vector<int> names, std::vector<int> insts, std::vector<std::vector<int>> types, int depth) {
        auto& p = FilterSys::points(); p.clear();
        for (int n : names) for (int i : insts) for (int k = 0; k < 4; ++k) for (int t : types[k]) p.push_back({n, i, k, t});
        mc::BfsConfig b; b.max_depth = depth;
        mc::bfs(name, b, static_cast<int>(p.size()) + 1, FilterSys::name, [] { return std::unique_ptr<mc::System>(new FilterSys); });
    };
    run("filter: names that concatenate to the same text", {0, 1, 4}, {0}, {{1, 2}, {1}, {1}, {1}}, mc::tier(4, 5));
    run("filter: names in reverse", {2, 3}, {0, 1}, {{1}, {1}, {1, 2}, {1}}, mc::tier(4, 5));
    run("filter: same element as event and field", {0}, {0, 1}, {{1, 2}, {1, 2, 3}, {1, 2, 3}, {1, 2, 3}}, mc::tier(4, 5));
    run("filter: long names", {0, 5}, {0, 2}, {{2}, {2}, {2}, {2}}, mc::tier(4, 5));
    mc::explore("filter: every single point", mc::Config{0}, [] {
        int k = mc::choose(4, "kind"), t = mc::choose(kTypes[k] + 1, "type");
        tr::TracingFilterConfig c;
        if (t == 0) { MC_CHECK(mc::dies([&] { add(c, "s", "e", kInst[0], k, 0); }), "an invalid trace point is accepted"); return; }
        add(c, "s", "e", kInst[0], k, t);
        for (int kk = 0; kk < 4; ++kk)
            for (int tt = 1; tt <= kTypes[kk]; ++tt)
                MC_CHECK(enabled(c, "s", "e", kInst[0], kk, tt) == (kk == k && tt == t), "with only " << kKind[k] << " point " << t << " configured, " << kKind[kk] << " point " << tt << " is " << enabled(c, "s", "e", kInst[0], kk, tt));
    });
    mc::explore("filter: every pair of points of one element", mc::Config{0}, [] {
        int k = mc::choose(4, "kind"), t = 1 + mc::choose(kTypes[k], "type"), u = 1 + mc::choose(kTypes[k], "type"), i = mc::choose(2, "instance");
        tr::TracingFilterConfig c;
        add(c, "s", "e", kInst[0], k, t); add(c, "s", "e", kInst[i], k, u);
        for (int tt = 1; tt <= kTypes[k]; ++tt)
            for (int ii = 0; ii < 2; ++ii)
                MC_CHECK(enabled(c, "s", "e", kInst[ii], k, tt) == ((ii == 0 && tt == t) || (ii == i && tt == u)), "with points " << t << " and " << u << " configured, point " << tt << " of instance " << ii << " is " << enabled(c, "s", "e", kInst[ii], k, tt));
    });
}

// Identities of elements and points: equal exactly if all parts are, and equal ones hash alike.
void identities()
{
    mc::explore("identities", mc::Config{0}, [] {
        const char* s[] = {"a", "ab", ""}; const char* e[] = {"bc", "c", "abc"};
        const impl::ServiceElementType ty[] = {impl::ServiceElementType::EVENT, impl::ServiceElementType::FIELD};
        const char* in[] = {"i", "ii"};
        int a[5], b[5]; const int n[5] = {3, 3, 2, 2, 3};
        for (int k = 0; k < 5; ++k) { a[k] = mc::choose(n[k], "left"); b[k] = mc::choose(n[k], "right"); }
        std::string sa = s[a[0]], ea = e[a[1]], ia = in[a[3]], sb = s[b[0]], eb = e[b[1]], ib = in[b[3]];
        tr::ServiceElementIdentifierView x{sa, ea, ty[a[2]]}, y{sb, eb, ty[b[2]]};
        const bool ev = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
        MC_CHECK((x == y) == ev, "elements compare " << (x == y) << " although their parts are " << (ev ? "equal" : "different"));
        if (ev) MC_CHECK(std::hash<tr::ServiceElementIdentifierView>{}(x) == std::hash<tr::ServiceElementIdentifierView>{}(y), "equal elements hash differently");
        tr::ServiceElementIdentifier ox{sa, ea, ty[a[2]]}, oy{sb, eb, ty[b[2]]};
        MC_CHECK((ox == oy) == ev, "owned elements compare " << (ox == oy));
        if (ev) MC_CHECK(std::hash<tr::ServiceElementIdentifier>{}(ox) == std::hash<tr::ServiceElementIdentifier>{}(oy), "equal owned elements hash differently");
        MC_CHECK(!((ox < oy) && (oy < ox)) && ((ox < oy) || (oy < ox)) == !ev, "the order of elements does not tell different ones apart");
        tr::ServiceElementInstanceIdentifierView p{x, ia}, q{y, ib};
        const bool iv = ev && a[3] == b[3];
        MC_CHECK((p == q) == iv, "element instances compare " << (p == q));
        if (iv) MC_CHECK(std::hash<tr::ServiceElementInstanceIdentifierView>{}(p) == std::hash<tr::ServiceElementInstanceIdentifierView>{}(q), "equal element instances hash differently");
        tr::TracePointKey kx{x, static_cast<std::uint8_t>(a[4])}, ky{y, static_cast<std::uint8_t>(b[4])};
        const bool kv = ev && a[4] == b[4];
        MC_CHECK((kx == ky) == kv, "trace points compare " << (kx == ky));
        if (kv) MC_CHECK(std::hash<tr::TracePointKey>{}(kx) == std::hash<tr::TracePointKey>{}(ky), "equal trace points hash differently");
    });
    mc::explore("length of names", mc::Config{0}, [] {
        // names whose joint length still fits are usable; longer ones are refused by terminating, never cut
        const int lens[] = {0, 1, 255, 509, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 5000};
        const int la = lens[mc::choose(13, "first")], lb = lens[mc::choose(13, "second")];
        std::string a(la, 'a'), b(lb, 'b'), c = b; if (lb) c.back() = 'c';
        tr::ServiceElementIdentifierView x{a, b, impl::ServiceElementType::EVENT};
        std::size_t h = 0;
        const bool died = mc::dies([&] { h = std::hash<tr::ServiceElementIdentifierView>{}(x); });
        MC_CHECK(died == (la + lb + 1 > 1024), "names of " << la << " and " << lb << " characters " << (died ? "are refused" : "are accepted"));
        tr::ServiceElementInstanceIdentifierView y{{a, "", impl::ServiceElementType::EVENT}, b};
        const bool died2 = mc::dies([&] { h = std::hash<tr::ServiceElementInstanceIdentifierView>{}(y); });
        MC_CHECK(died2 == (la + lb + 1 > 1024), "an element instance of " << la << " and " << lb << " characters " << (died2 ? "is refused" : "is accepted"));
        if (la + lb > 1020) return;
        tr::TracingFilterConfig f;
        add(f, a, b, kInst[0], kSE, 1);
        MC_CHECK(enabled(f, a, b, kInst[0], kSE, 1), "a long name is not found");
        if (lb) MC_CHECK(!enabled(f, a, c, kInst[0], kSE, 1), "a long name that differs at its end is found");
    });
    mc::explore("sums without overflow", mc::Config{0}, [] {
        // every sum of up to three bytes and an initial value
        const int init = mc::choose(256, "initial");
        for (int a = 0; a < 256; ++a)
        {
            std::uint8_t v[3] = {static_cast<std::uint8_t>(a), 0, 0};
            auto r1 = tr::configuration::Accumulate(v, v + 1, static_cast<std::uint8_t>(init));
            MC_CHECK(r1.second == (init + a > 255) && (r1.second || r1.first == init + a), "the sum of " << init << " and " << a << " is " << +r1.first << (r1.second ? " (overflow)" : ""));
            for (int b = 0; b < 256; b += (b < 4 || b > 250) ? 1 : 9)
                for (int c : {0, 1, 127, 255})
                {
                    v[1] = static_cast<std::uint8_t>(b); v[2] = static_cast<std::uint8_t>(c);
                    auto r = tr::configuration::Accumulate(v, v + 3, static_cast<std::uint8_t>(init));
                    MC_CHECK(r.second == (init + a + b + c > 255) && (r.second || r.first == init + a + b + c), "the sum of " << init << "," << a << "," << b << "," << c << " is " << +r.first);
                }
        }
        std::uint8_t none[1]{}; auto r0 = tr::configuration::Accumulate(none, none, static_cast<std::uint8_t>(init));
        MC_CHECK(!r0.second && r0.first == init, "the sum of nothing is not the initial value");
    });
}

// ---- filter documents ----
struct Prop { const char* json; std::vector<std::pair<int, int>> points; };
const std::vector<Prop>& sub_props(bool field)
{
    auto mk = [](Kind k) {
        auto t = [&](PE e) { return std::pair<int, int>{k, static_cast<int>(e)}; };
        return std::vector<Prop>{
            {"trace_subscribe_send", {t(PE::SUBSCRIBE)}}, {"trace_unsubscribe_send", {t(PE::UNSUBSCRIBE)}}, {"trace_subscription_state_changed", {t(PE::SUBSCRIBE_STATE_CHANGE)}},
            {"trace_subscription_state_change_handler_registered", {t(PE::SET_SUBSCRIPTION_STATE_CHANGE_HANDLER)}}, {"trace_subscription_state_change_handler_deregistered", {t(PE::UNSET_SUBSCRIPTION_STATE_CHANGE_HANDLER)}},
            {"trace_subscription_state_change_handler_callback", {t(PE::SUBSCRIPTION_STATE_CHANGE_HANDLER_CALLBACK)}}, {"trace_get_new_samples", {t(PE::GET_NEW_SAMPLES)}}, {"trace_get_new_samples_callback", {t(PE::GET_NEW_SAMPLES_CALLBACK)}},
            {"trace_receive_handler_registered", {t(PE::SET_RECEIVE_HANDLER)}}, {"trace_receive_handler_deregistered", {t(PE::UNSET_RECEIVE_HANDLER)}}, {"trace_receive_handler_callback", {t(PE::RECEIVE_HANDLER_CALLBACK)}},
            {"trace_subscribe_received", {}}, {"trace_unsubscribe_received", {}}};
    };
    static const std::vector<Prop> e = [&] { auto v = mk(kPE); v.push_back({"trace_send_allocate", {{kSE, int(SE::SEND_WITH_ALLOCATE)}}}); v.push_back({"trace_send", {{kSE, int(SE::SEND)}}}); return v; }();
    static const std::vector<Prop> f = [&] { auto v = mk(kPF); v.push_back({"trace_update", {{kSF, int(SF::UPDATE)}, {kSF, int(SF::UPDATE_WITH_ALLOCATE)}}}); return v; }();
    return field ? f : e;
}
const std::vector<Prop>& acc_props(bool setter)
{
    static const std::vector<Prop> g{{"trace_request_send", {{kPF, int(PF::GET)}}}, {"trace_response_received", {{kPF, int(PF::GET_RESULT)}}}, {"trace_request_received", {{kSF, int(SF::GET_CALL)}}}, {"trace_response_send", {{kSF, int(SF::GET_CALL_RESULT)}}}};
    static const std::vector<Prop> s{{"trace_request_send", {{kPF, int(PF::SET)}}}, {"trace_response_received", {{kPF, int(PF::SET_RESULT)}}}, {"trace_request_received", {{kSF, int(SF::SET_CALL)}}}, {"trace_response_send", {{kSF, int(SF::SET_CALL_RESULT)}}}};
    return setter ? s : g;
}
impl::Configuration parse_cfg(const std::string& text)
{
    auto any = score::json::JsonParser{}.FromBuffer(text);
    if (!any.has_value()) { mc::violation("HARNESS: not JSON: " + text); std::terminate(); }
    return impl::configuration::Parse(std::move(any).value());
}
std::string num(int n) { return std::to_string(n); }
// Type a has events ev, x and fields fi, x; type ab has event c. Instances of a: i, k; of ab: j.
struct Slots { int i_ev{1}, i_x{1}, i_fi{1}, i_fx{1}, k_ev{1}, k_fi{1}, j_c{1}; };
std::string deployment(const Slots& s)
{
    auto ty = [](const std::string& n, const std::string& ev, const std::string& fi, int id) {
        return "{\"serviceTypeName\":\"" + n + "\",\"version\":{\"major\":1,\"minor\":0},\"bindings\":[{\"binding\":\"SHM\",\"serviceId\":" + num(id) + ",\"events\":[" + ev + "],\"fields\":[" + fi + "]}]}";
    };
    auto te = [](const std::string& n, int id) { return "{\"eventName\":\"" + n + "\",\"eventId\":" + num(id) + "}"; };
    auto tf = [](const std::string& n, int id) { return "{\"fieldName\":\"" + n + "\",\"fieldId\":" + num(id) + ",\"get\":true,\"set\":true,\"notifier\":true}"; };
    auto in = [](const std::string& spec, const std::string& type, int id, const std::string& ev, const std::string& fi) {
        return "{\"instanceSpecifier\":\"" + spec + "\",\"serviceTypeName\":\"" + type + "\",\"version\":{\"major\":1,\"minor\":0},\"instances\":[{\"instanceId\":" + num(id) + ",\"asil-level\":\"QM\",\"binding\":\"SHM\",\"events\":[" + ev + "],\"fields\":[" + fi + "]}]}";
    };
    auto ie = [](const std::string& n, int slots) { return "{\"eventName\":\"" + n + "\",\"numberOfSampleSlots\":5,\"maxSubscribers\":3,\"numberOfIpcTracingSlots\":" + num(slots) + "}"; };
    auto jf = [](const std::string& n, int slots) { return "{\"fieldName\":\"" + n + "\",\"numberOfSampleSlots\":5,\"maxSubscribers\":3,\"numberOfIpcTracingSlots\":" + num(slots) + "}"; };
    return "{\"serviceTypes\":[" + ty("a", te("ev", 1) + "," + te("x", 2), tf("fi", 3) + "," + tf("y", 4), 1) + "," + ty("ab", te("c", 1), tf("ev", 2), 2) + "],\"serviceInstances\":[" +
           in("i", "a", 1, ie("ev", s.i_ev) + "," + ie("x", s.i_x), jf("fi", s.i_fi) + "," + jf("y", s.i_fx)) + "," + in("k", "a", 2, ie("ev", s.k_ev) + "," + ie("x", 0), jf("fi", s.k_fi) + "," + jf("y", 0)) + "," +
           in("j", "ab", 3, ie("c", s.j_c), jf("ev", 0)) + "],\"tracing\":{\"enable\":true,\"applicationInstanceID\":\"app\",\"traceFilterConfigPath\":\"./f\"}}";
}
using Want = std::set<std::tuple<std::string, std::string, std::string, int, int>>;  // service, element, instance, kind, type
void want(Want& w, const std::string& s, const std::string& e, const Slots& sl, const std::vector<std::pair<int, int>>& pts)
{
    for (auto& p : pts)
    {
        const bool field = p.first == kSF || p.first == kPF;
        auto put = [&](const char* inst, int slots) { if (slots) w.insert({s, e, inst, p.first, p.second}); };
        if (s == "a" && e == "ev" && !field) { put("i", sl.i_ev); put("k", sl.k_ev); }
        if (s == "a" && e == "x" && !field) put("i", sl.i_x);
        if (s == "a" && e == "fi" && field) { put("i", sl.i_fi); put("k", sl.k_fi); }
        if (s == "a" && e == "y" && field) put("i", sl.i_fx);
        if (s == "ab" && e == "c" && !field) put("j", sl.j_c);
    }
}
void check_filter(const tr::TracingFilterConfig& c, const Want& w)
{
    for (auto s : {"a", "ab", "abc"}) for (auto e : {"ev", "x", "fi", "y", "c", "nope"}) for (auto i : {"i", "k", "j"})
        for (int k = 0; k < 4; ++k) for (int t = 1; t <= kTypes[k]; ++t)
        {
            const bool got = enabled(c, s, e, i, k, t), exp = w.count({s, e, i, k, t}) != 0;
            MC_CHECK(got == exp, kKind[k] << " point " << t << " of " << s << "." << e << " of instance " << i << (got ? " is enabled without being configured" : " is not enabled although configured"));
        }
}
tr::TracingFilterConfig parse_filter(const std::string& text, const impl::Configuration& cfg)
{
    auto any = score::json::JsonParser{}.FromBuffer(text);
    if (!any.has_value()) { mc::violation("HARNESS: not JSON: " + text); std::terminate(); }
    auto r = tr::Parse(std::move(any).value(), cfg);
    if (!r.has_value()) { mc::violation("a filter document is refused"); std::terminate(); }
    return std::move(r).value();
}
std::string props(const std::vector<std::pair<const Prop*, int>>& p)  // 1 false, 2 true
{
    std::string r; for (auto& x : p) if (x.second) r += std::string(r.empty() ? "" : ",") + "\"" + x.first->json + "\":" + (x.second == 2 ? "true" : "false");
    return r;
}
std::string obj(const std::string& name, const std::string& rest) { return "{\"shortname\":\"" + name + "\"" + (rest.empty() ? "" : "," + rest) + "}"; }
std::string service(const std::string& n, const std::string& ev, const std::string& fi, const std::string& more = "") { return "{\"shortname_path\":\"" + n + "\",\"events\":[" + ev + "],\"fields\":[" + fi + "]" + more + "}"; }

void documents()
{
    mc::explore("documents: one event, one property on, another off", mc::Config{0}, [] {
        Slots sl; auto cfg = parse_cfg(deployment(sl));
        auto& ps = sub_props(false); const int n = static_cast<int>(ps.size());
        int a = mc::choose(n, "on"), b = mc::choose(n, "second"), bv = mc::choose(3, "second is");
        std::vector<std::pair<const Prop*, int>> v{{&ps[a], 2}}; Want w; want(w, "a", "ev", sl, ps[a].points);
        if (a != b) { v.push_back({&ps[b], bv}); if (bv == 2) want(w, "a", "ev", sl, ps[b].points); }
        auto f = parse_filter("{\"services\":[" + service("a", obj("ev", props(v)), "") + "]}", cfg);
        check_filter(f, w);
    });
    mc::explore("documents: one field, one property on, another off", mc::Config{0}, [] {
        Slots sl; auto cfg = parse_cfg(deployment(sl));
        struct B { const char* n; const std::vector<Prop>* p; }; const B blocks[] = {{"notifier", &sub_props(true)}, {"getter", &acc_props(false)}, {"setter", &acc_props(true)}};
        std::vector<std::pair<int, const Prop*>> all; for (int k = 0; k < 3; ++k) for (auto& p : *blocks[k].p) all.push_back({k, &p});
        const int n = static_cast<int>(all.size());
        int a = mc::choose(n, "on"), b = mc::choose(n, "second"), bv = mc::choose(3, "second is");
        Want w; want(w, "a", "fi", sl, all[a].second->points);
        std::vector<std::pair<const Prop*, int>> v[3]; v[all[a].first].push_back({all[a].second, 2});
        if (a != b) { v[all[b].first].push_back({all[b].second, bv}); if (bv == 2) want(w, "a", "fi", sl, all[b].second->points); }
        std::string rest; for (int k = 0; k < 3; ++k) if (!v[k].empty()) rest += std::string(rest.empty() ? "" : ",") + "\"" + blocks[k].n + "\":{" + props(v[k]) + "}";
        auto f = parse_filter("{\"services\":[" + service("a", "", obj("fi", rest)) + "]}", cfg);
        check_filter(f, w);
    });
    // which elements, services and instances are concerned
    mc::explore("documents: services, elements and instances", mc::Config{0}, [] {
        Slots sl; sl.i_ev = mc::choose(2, "ev of i"); sl.k_ev = mc::choose(2, "ev of k"); sl.i_fi = mc::choose(2, "fi of i"); sl.k_fi = mc::choose(2, "fi of k"); sl.j_c = mc::choose(2, "c of j");
        auto cfg = parse_cfg(deployment(sl));
        const char* kev[] = {"", "{\"shortname\":\"ev\",\"trace_send\":true,\"trace_subscribe_send\":true}", "{\"trace_send\":true}", "{\"shortname\":\"nope\",\"trace_send\":true}", "{\"shortname\":\"ev\",\"trace_send\":true},{\"shortname\":\"x\",\"trace_get_new_samples\":true}",
                             "{\"shortname\":\"fi\",\"trace_send\":true}", "{\"trace_send\":true},{\"shortname\":\"ev\",\"trace_send_allocate\":true}"};
        const char* kfi[] = {"", "{\"shortname\":\"fi\",\"notifier\":{\"trace_update\":true}}", "{\"shortname\":\"ev\",\"notifier\":{\"trace_update\":true}}", "{\"notifier\":{\"trace_update\":true}},{\"shortname\":\"y\",\"setter\":{\"trace_request_send\":true}}", "{\"shortname\":\"fi\"}"};
        int e = mc::choose(7, "events"), f = mc::choose(5, "fields"), s = mc::choose(5, "services");
        Want w;
        auto in_a = [&] {
            if (e == 1) { want(w, "a", "ev", sl, {{kSE, int(SE::SEND)}, {kPE, int(PE::SUBSCRIBE)}}); }
            if (e == 4) { want(w, "a", "ev", sl, {{kSE, int(SE::SEND)}}); want(w, "a", "x", sl, {{kPE, int(PE::GET_NEW_SAMPLES)}}); }
            if (e == 6) want(w, "a", "ev", sl, {{kSE, int(SE::SEND_WITH_ALLOCATE)}});
            if (f == 1) want(w, "a", "fi", sl, {{kSF, int(SF::UPDATE)}, {kSF, int(SF::UPDATE_WITH_ALLOCATE)}});
            if (f == 3) want(w, "a", "y", sl, {{kPF, int(PF::SET)}});
        };
        std::string services;
        switch (s)
        {
            case 0: services = service("a", kev[e], kfi[f]); in_a(); break;
            case 1: services = service("abc", kev[e], kfi[f]); break;                                   // not a configured type
            case 2: services = "{\"events\":[" + std::string(kev[e]) + "]}," + service("a", kev[e], kfi[f]); in_a(); break;   // one without a name
            case 3: services = service("ab", "{\"shortname\":\"c\",\"trace_send\":true}", "") + "," + service("a", kev[e], kfi[f], ",\"methods\":[]"); want(w, "ab", "c", sl, {{kSE, int(SE::SEND)}}); in_a(); break;
            default: services = service("a", kev[e], "") + "," + service("a", "", kfi[f]); in_a(); break;   // the same service twice
        }
        auto c = parse_filter("{\"services\":[" + services + "]}", cfg);
        check_filter(c, w);
        auto moved = std::make_unique<tr::TracingFilterConfig>(std::move(c));
        check_filter(*moved, w);
    });
    mc::explore("documents: nothing to trace", mc::Config{0}, [] {
        Slots sl; auto cfg = parse_cfg(deployment(sl));
        const char* d[] = {"{}", "{\"services\":[]}", "{\"services\":[{\"shortname_path\":\"a\"}]}", "{\"other\":1}", "{\"services\":[{}]}"};
        auto c = parse_filter(d[mc::choose(5, "document")], cfg);
        check_filter(c, {});
        MC_CHECK(c.GetNumberOfTracingSlots(cfg) == 0, "slots are reserved although nothing is traced");
    });
    // slots to reserve for asynchronous traces: those of every element instance with a traced send
    mc::explore("tracing slots", mc::Config{0}, [] {
        const int n[] = {0, 1, 255};
        Slots sl; sl.i_ev = n[mc::choose(3, "ev of i")]; sl.k_ev = n[mc::choose(3, "ev of k")]; sl.i_x = n[mc::choose(3, "x of i")]; sl.i_fi = n[mc::choose(3, "fi of i")]; sl.k_fi = n[mc::choose(2, "fi of k")]; sl.j_c = n[mc::choose(2, "c of j")];
        auto cfg = parse_cfg(deployment(sl));
        int e = mc::choose(4, "ev sends"), x = mc::choose(2, "x sends"), f = mc::choose(2, "fi updates"), c = mc::choose(2, "c sends"), p = mc::choose(2, "consumer points");
        std::string pe = p ? ",\"trace_get_new_samples\":true,\"trace_subscribe_send\":true" : "";
        std::string ev = "{\"shortname\":\"ev\",\"trace_send\":" + std::string(e & 1 ? "true" : "false") + ",\"trace_send_allocate\":" + (e & 2 ? "true" : "false") + pe + "}";
        ev += ",{\"shortname\":\"x\",\"trace_send\":" + std::string(x ? "true" : "false") + pe + "}";
        std::string fi = "{\"shortname\":\"fi\",\"notifier\":{\"trace_update\":" + std::string(f ? "true" : "false") + pe + "},\"getter\":{\"trace_request_received\":true}}";
        auto flt = parse_filter("{\"services\":[" + service("a", ev, fi) + "," + service("ab", "{\"shortname\":\"c\",\"trace_send\":" + std::string(c ? "true" : "false") + "}", "") + "]}", cfg);
        const int exp = (e ? sl.i_ev + sl.k_ev : 0) + (x ? sl.i_x : 0) + (f ? sl.i_fi + sl.k_fi : 0) + (c ? sl.j_c : 0);
        const auto got = flt.GetNumberOfTracingSlots(cfg);
        MC_CHECK(got == exp, got << " tracing slots are reserved, " << exp << " are configured");
    });
    mc::explore("tracing slots: limit", mc::Config{0}, [] {
        // 257 instances with 255 slots make 65535; one more is too many
        const int extra = mc::choose(3, "extra");
        std::string in;
        for (int i = 0; i < 257 + (extra ? 1 : 0); ++i)
            in += std::string(i ? "," : "") + "{\"instanceSpecifier\":\"n" + num(i) + "\",\"serviceTypeName\":\"a\",\"version\":{\"major\":1,\"minor\":0},\"instances\":[{\"instanceId\":" + num(i) +
                  ",\"asil-level\":\"QM\",\"binding\":\"SHM\",\"events\":[{\"eventName\":\"ev\",\"numberOfSampleSlots\":5,\"maxSubscribers\":3,\"numberOfIpcTracingSlots\":" + num(i == 257 ? extra : 255) + "}],\"fields\":[]}]}";
        auto cfg = parse_cfg("{\"serviceTypes\":[{\"serviceTypeName\":\"a\",\"version\":{\"major\":1,\"minor\":0},\"bindings\":[{\"binding\":\"SHM\",\"serviceId\":1,\"events\":[{\"eventName\":\"ev\",\"eventId\":1}]}]}],\"serviceInstances\":[" + in +
                             "],\"tracing\":{\"enable\":true,\"applicationInstanceID\":\"app\",\"traceFilterConfigPath\":\"./f\"}}");
        auto f = parse_filter("{\"services\":[" + service("a", obj("ev", "\"trace_send\":true"), "") + "]}", cfg);
        std::uint16_t got = 0; const bool died = mc::dies([&] { got = f.GetNumberOfTracingSlots(cfg); });
        if (extra) MC_CHECK(died, "more tracing slots than can be counted are accepted as " << got);
        else MC_CHECK(!died && got == 65535, "65535 tracing slots are counted as " << got);
    });
}

// ---- what is handed to the tracing runtime ----
struct FakeTracing : tr::ITracingRuntime
{
    struct Call { TracePointType type; std::string service, element, instance; impl::ServiceElementType ety; std::optional<TracePointDataId> id; std::size_t size; bool shm; int value; };
    std::vector<Call> calls;
    bool on{true};
    int answer{0};  // 0 ok, 1 disable point, 2 disable all
    std::vector<std::uint8_t> registered;
    tr::ServiceElementTracingData data{7, 3};
    score::Result<void> result() { if (answer == 1) return score::MakeUnexpected(tr::TraceErrorCode::TraceErrorDisableTracePointInstance); if (answer == 2) return score::MakeUnexpected(tr::TraceErrorCode::TraceErrorDisableAllTracePoints); return {}; }
    void DisableTracing() noexcept override { on = false; }
    bool IsTracingEnabled() override { return on; }
    tr::ServiceElementTracingData RegisterServiceElement(const impl::BindingType, std::uint8_t n) noexcept override { registered.push_back(n); return data; }
    void SetDataLossFlag(const impl::BindingType) noexcept override {}
    void RegisterShmObject(const impl::BindingType, const tr::ServiceElementInstanceIdentifierView, const score::memory::shared::ISharedMemoryResource::FileDescriptor, void* const) override {}
    void UnregisterShmObject(impl::BindingType, tr::ServiceElementInstanceIdentifierView) override {}
    void note(const tr::ServiceElementInstanceIdentifierView& v, TracePointType t, std::optional<TracePointDataId> id, const void* p, std::size_t n, bool shm)
    {
        auto& e = v.service_element_identifier_view;
        int val = 0; if (p && n == sizeof(int)) val = *static_cast<const int*>(p); if (p && n == sizeof(std::size_t)) val = static_cast<int>(*static_cast<const std::size_t*>(p));
        calls.push_back({t, std::string(e.service_type_name), std::string(e.service_element_name), std::string(v.instance_specifier), e.service_element_type, id, n, shm, val});
    }
    score::Result<void> Trace(const impl::BindingType, const tr::ServiceElementTracingData d, const tr::ServiceElementInstanceIdentifierView v, const TracePointType t, const TracePointDataId id, tr::TypeErasedSamplePtr, const void* const p, const std::size_t n) override
    { MC_CHECK(d == data, "a trace carries other tracing data than was registered"); note(v, t, id, p, n, true); return result(); }
    score::Result<void> Trace(const impl::BindingType, const tr::ServiceElementInstanceIdentifierView v, const TracePointType t, const std::optional<TracePointDataId> id, const void* const p, const std::size_t n) override { note(v, t, id, p, n, false); return result(); }
    tr::IBindingTracingRuntime& GetBindingTracingRuntime(const impl::BindingType) const noexcept override { std::abort(); }
};
struct DummyProxy : impl::ProxyEventBindingBase
{
    score::Result<void> Subscribe(const std::size_t) noexcept override { return {}; }
    impl::SubscriptionState GetSubscriptionState() const noexcept override { return impl::SubscriptionState::kSubscribed; }
    void Unsubscribe() noexcept override {}
    score::Result<void> SetReceiveHandler(std::weak_ptr<impl::ScopedEventReceiveHandler>) noexcept override { return {}; }
    score::Result<void> UnsetReceiveHandler() noexcept override { return {}; }
    score::Result<void> SetSubscriptionStateChangeHandler(impl::SubscriptionStateChangeHandler) noexcept override { return {}; }
    score::Result<void> UnsetSubscriptionStateChangeHandler() noexcept override { return {}; }
    score::Result<std::size_t> GetNumNewSamplesAvailable() const override { return std::size_t{0}; }
    std::optional<std::uint16_t> GetMaxSampleCount() const noexcept override { return {}; }
    impl::BindingType GetBindingType() const noexcept override { return impl::BindingType::kLoLa; }
    void NotifyServiceInstanceChangedAvailability(bool, pid_t) noexcept override {}
};
struct DummySkeleton : impl::SkeletonEventBinding<int>
{
    score::Result<void> PrepareOffer() noexcept override { return {}; }
    void PrepareStopOffer() noexcept override {}
    impl::BindingType GetBindingType() const noexcept override { return impl::BindingType::kLoLa; }
    void SetSkeletonEventTracingData(tr::SkeletonEventTracingData) noexcept override {}
    score::Result<void> Send(const int&, std::optional<SendTraceCallback>, impl::SampleAllocateeGuard) noexcept override { return {}; }
    score::Result<void> Send(impl::SampleAllocateePtr<int>, std::optional<SendTraceCallback>) noexcept override { return {}; }
    score::Result<impl::SampleAllocateePtr<int>> Allocate(impl::SampleAllocateeGuard) noexcept override { return score::MakeUnexpected(impl::ComErrc::kBindingFailure); }
    score::Result<impl::SamplePtr<int>> GetLatestSample(impl::QualityType) override { return score::MakeUnexpected(impl::ComErrc::kBindingFailure); }
};
// Operations of a consumer that have a trace point.
struct POp { const char* n; PE type; bool tr::ProxyEventTracingData::*flag; };
const POp kPOps[] = {{"subscribe", PE::SUBSCRIBE, &tr::ProxyEventTracingData::enable_subscribe}, {"unsubscribe", PE::UNSUBSCRIBE, &tr::ProxyEventTracingData::enable_unsubscribe},
                     {"set receive handler", PE::SET_RECEIVE_HANDLER, &tr::ProxyEventTracingData::enable_set_receive_handler}, {"unset receive handler", PE::UNSET_RECEIVE_HANDLER, &tr::ProxyEventTracingData::enable_unset_receive_handler},
                     {"receive handler call", PE::RECEIVE_HANDLER_CALLBACK, &tr::ProxyEventTracingData::enable_call_receive_handler}, {"get new samples", PE::GET_NEW_SAMPLES, &tr::ProxyEventTracingData::enable_get_new_samples},
                     {"get new samples callback", PE::GET_NEW_SAMPLES_CALLBACK, &tr::ProxyEventTracingData::enable_new_samples_callback}, {"state changed", PE::SUBSCRIBE_STATE_CHANGE, &tr::ProxyEventTracingData::enable_subscription_state_changed},
                     {"set state handler", PE::SET_SUBSCRIPTION_STATE_CHANGE_HANDLER, &tr::ProxyEventTracingData::enable_set_subcription_state_change_handler}, {"unset state handler", PE::UNSET_SUBSCRIPTION_STATE_CHANGE_HANDLER, &tr::ProxyEventTracingData::enable_unset_subscription_state_change_handler},
                     {"state handler call", PE::SUBSCRIPTION_STATE_CHANGE_HANDLER_CALLBACK, &tr::ProxyEventTracingData::enable_call_subscription_state_change_handler}};
constexpr int kTraced = 7;  // the first seven have a trace function
struct Deployed
{
    impl::ServiceTypeDeployment type{impl::LolaServiceTypeDeployment{7}};
    impl::ServiceInstanceDeployment inst;
    static impl::LolaServiceInstanceDeployment mk()
    {
        impl::LolaServiceInstanceDeployment d{impl::LolaServiceInstanceId{5}};
        d.events_.emplace("el", impl::LolaEventInstanceDeployment{3, 3, 1, true, 11});
        d.fields_.emplace("el", impl::LolaFieldInstanceDeployment{impl::LolaEventInstanceDeployment{3, 3, 1, true, 13}, false, false});
        return d;
    }
    Deployed() : inst(impl::make_ServiceIdentifierType("svc"), mk(), impl::QualityType::kASIL_QM, impl::InstanceSpecifier::Create(std::string{"inst"}).value()) {}
    impl::InstanceIdentifier id() { return impl::make_InstanceIdentifier(inst, type); }
};
void consumer_op(int op, tr::ProxyEventTracingData& d, const impl::ProxyEventBindingBase& b)
{
    switch (op)
    {
        case 0: tr::TraceSubscribe(d, b, 42); break;
        case 1: tr::TraceUnsubscribe(d, b); break;
        case 2: tr::TraceSetReceiveHandler(d, b); break;
        case 3: tr::TraceUnsetReceiveHandler(d, b); break;
        case 4: { int called = 0; auto h = tr::CreateTracingReceiveHandler(d, b, [&called]() noexcept { ++called; }); h(); MC_CHECK(called == 1, "the receive handler runs " << called << " times"); break; }
        case 5: tr::TraceGetNewSamples(d, b); break;
        case 6:
        {
            int called = 0; auto f = [&called](impl::SamplePtr<int>) noexcept { ++called; };
            auto cb = tr::CreateTracingGetNewSamplesCallback<int, decltype(f)>(d, b, std::move(f));
            cb(impl::SamplePtr<int>{nullptr}, 99); MC_CHECK(called == 1, "the sample handler runs " << called << " times"); break;
        }
        default: break;
    }
}
void gating()
{
    mc::explore("consumer points: flags from the filter", mc::Config{0}, [] {
        const bool field = mc::choose(2, "field"), present = mc::choose(4, "filter") != 3;
        int a = mc::choose(11, "on"), b = mc::choose(11, "also on"), other = mc::choose(3, "elsewhere");
        Deployed dep; fake::Runtime rt; rt.add(0, 1, 1);
        tr::TracingFilterConfig f; const std::string inst = "inst", inst2 = "inst2";
        const int kind = field ? kPF : kPE;
        add(f, "svc", "el", inst, kind, int(kPOps[a].type)); if (b != a) add(f, "svc", "el", inst, kind, int(kPOps[b].type));
        // points of other elements, instances and kinds must not matter
        for (int t = 1; t <= 11; ++t) { if (other == 0) add(f, "svc", "el", inst2, kind, t); if (other == 1) add(f, "svc", "el2", inst, kind, t); if (other == 2) add(f, "svc", "el", inst, field ? kPE : kPF, t); }
        if (present) rt.filter = &f;
        auto d = field ? tr::GenerateProxyTracingStructFromFieldConfig(dep.id(), "el") : tr::GenerateProxyTracingStructFromEventConfig(dep.id(), "el");
        for (int k = 0; k < 11; ++k) MC_CHECK(d.*kPOps[k].flag == (present && (k == a || k == b)), "consumer point '" << kPOps[k].n << "' is " << (d.*kPOps[k].flag ? "on" : "off"));
    });
    mc::explore("consumer points: what is traced", mc::Config{0}, [] {
        const bool field = mc::choose(2, "field");
        const int on = mc::choose(kTraced, "on"), op = mc::choose(kTraced, "operation"), others = mc::choose(2, "all others"), answer = mc::choose(3, "answer");
        Deployed dep; fake::Runtime rt; rt.add(0, 1, 1); FakeTracing t; rt.tr = &t; DummyProxy b;
        tr::TracingFilterConfig f; const std::string inst = "inst"; const int kind = field ? kPF : kPE;
        for (int k = 0; k < 11; ++k) if ((k == on) != (others == 1)) add(f, "svc", "el", inst, kind, int(kPOps[k].type));
        rt.filter = &f; t.answer = answer;
        auto d = field ? tr::GenerateProxyTracingStructFromFieldConfig(dep.id(), "el") : tr::GenerateProxyTracingStructFromEventConfig(dep.id(), "el");
        tr::ProxyEventTracingData before = d;
        consumer_op(op, d, b);
        const bool exp = (op == on) != (others == 1);
        MC_CHECK(t.calls.size() == (exp ? 1u : 0u), "operation '" << kPOps[op].n << "' makes " << t.calls.size() << " traces");
        if (exp && t.calls.size() == 1)
        {
            auto& c = t.calls[0];
            const tr::ITracingRuntime::TracePointType want = field ? tr::ITracingRuntime::TracePointType{static_cast<PF>(kPOps[op].type)} : tr::ITracingRuntime::TracePointType{kPOps[op].type};
            MC_CHECK(c.type == want, "operation '" << kPOps[op].n << "' is traced as another point");
            MC_CHECK(c.service == "svc" && c.element == "el" && c.instance == "inst" && c.ety == (field ? impl::ServiceElementType::FIELD : impl::ServiceElementType::EVENT), "operation '" << kPOps[op].n << "' is traced for another element");
            MC_CHECK(!c.shm && (op == 6 ? c.id == 99u : !c.id) && (op == 0 ? c.value == 42 && c.size == sizeof(std::size_t) : c.size == 0), "operation '" << kPOps[op].n << "' is traced with other data");
        }
        for (int k = 0; k < 11; ++k)
        {
            const bool want = before.*kPOps[k].flag && !(exp && answer == 2) && !(exp && answer == 1 && k == op);
            MC_CHECK(d.*kPOps[k].flag == want, "after answer " << answer << " to '" << kPOps[op].n << "' point '" << kPOps[k].n << "' is " << (d.*kPOps[k].flag ? "on" : "off"));
        }
        // a second time: only what is still on
        t.calls.clear(); const bool still = d.*kPOps[op].flag; t.answer = 0;
        consumer_op(op, d, b);
        MC_CHECK(t.calls.size() == (still ? 1u : 0u), "after answer " << answer << " operation '" << kPOps[op].n << "' makes " << t.calls.size() << " traces");
    });
    mc::explore("provider points", mc::Config{0}, [] {
        const bool field = mc::choose(2, "field"); const int bits = mc::choose(4, "send points"), state = mc::choose(3, "tracing"), answer = mc::choose(3, "answer"), order = mc::choose(4, "operations"), other = mc::choose(3, "elsewhere");
        Deployed dep; fake::Runtime rt; rt.add(0, 1, 1); FakeTracing t; t.on = state != 1; if (state != 2) rt.tr = &t; DummySkeleton b;
        tr::TracingFilterConfig f; const std::string inst = "inst", inst2 = "inst2"; const int kind = field ? kSF : kSE;
        if (bits & 1) add(f, "svc", "el", inst, kind, 1);
        if (bits & 2) add(f, "svc", "el", inst, kind, 2);
        for (int k = 1; k <= 2; ++k) { if (other == 0) add(f, "svc", "el", inst2, kind, k); if (other == 1) add(f, "svc", "el2", inst, kind, k); if (other == 2) add(f, "svc", "el", inst, field ? kSE : kSF, k); }
        rt.filter = &f;
        auto d = field ? tr::GenerateSkeletonTracingStructFromFieldConfig(dep.id(), impl::BindingType::kLoLa, "el") : tr::GenerateSkeletonTracingStructFromEventConfig(dep.id(), impl::BindingType::kLoLa, "el");
        const bool a = state == 0 && (bits & 1), al = state == 0 && (bits & 2);
        MC_CHECK(d.enable_send == a && d.enable_send_with_allocate == al, "provider points are " << d.enable_send << d.enable_send_with_allocate << ", configured " << a << al);
        MC_CHECK(t.registered.size() == (a || al ? 1u : 0u), "the element is registered " << t.registered.size() << " times");
        if (a || al) MC_CHECK(t.registered.size() == 1 && t.registered[0] == (field ? 13 : 11) && d.service_element_tracing_data == t.data, "the element is registered with other tracing slots");
        // two sends, plain or with allocation
        bool on[2] = {a, al};
        for (int n = 0; n < 2; ++n)
        {
            const int w = (order >> n) & 1;
            t.calls.clear(); t.answer = n == 0 ? answer : 0;
            auto cb = w ? tr::CreateTracingSendWithAllocateCallback<int>(d, b) : tr::CreateTracingSendCallback<int>(d, b);
            MC_CHECK(cb.has_value() == on[w], "a send " << (w ? "with allocation " : "") << (cb ? "is traced although off" : "is not traced although on"));
            if (!cb) continue;
            auto p = impl::MakeSampleAllocateePtr(score::mw::com::impl::mock_binding::SampleAllocateePtr<int>{new int(5 + n), [](int* x) { delete x; }});
            (*cb)(p);
            MC_CHECK(t.calls.size() == 1, "a traced send makes " << t.calls.size() << " traces"); if (t.calls.size() != 1) continue;
            auto& c = t.calls[0];
            const tr::ITracingRuntime::TracePointType want = field ? tr::ITracingRuntime::TracePointType{static_cast<SF>(1 + w)} : tr::ITracingRuntime::TracePointType{static_cast<SE>(1 + w)};
            MC_CHECK(c.type == want, "a send is traced as another point");
            MC_CHECK(c.service == "svc" && c.element == "el" && c.instance == "inst" && c.ety == (field ? impl::ServiceElementType::FIELD : impl::ServiceElementType::EVENT), "a send is traced for another element");
            MC_CHECK(c.shm && c.size == sizeof(int) && c.value == 5 + n, "a send is traced with other data");
            if (n == 0 && answer == 1) on[w] = false;
            if (n == 0 && answer == 2) on[0] = on[1] = false;
            MC_CHECK(d.enable_send == on[0] && d.enable_send_with_allocate == on[1], "after answer " << answer << " the provider points are " << d.enable_send << d.enable_send_with_allocate);
        }
    });
}
}  // namespace
MC_CASE(T03, filter) { filters(); }
MC_CASE(T03, identities) { identities(); }
MC_CASE(T03, documents) { documents(); }
MC_CASE(T03, gating) { gating(); }
