// The compatibility layer's combinators: alone, for all sequences of calls, and through multicast messages on objects with all tables.
#include "kit.hpp"
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/combinators.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <algorithm>
#include <sstream>
using namespace kit;
namespace comb = dynamix::v1compat::combinators;

// an argument which shows whether it was moved away
struct arg {
    std::string v;
    arg(std::string s) : v(std::move(s)) {}
    arg(const arg& o) : v(o.v) {}
    arg(arg&& o) noexcept : v(std::move(o.v)) { o.v = "moved"; }
};
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_0(bool, flags); DYNAMIX_V1_CREATE_COMBINATOR_CALL_0(bool, flags);
DYNAMIX_V1_MULTICAST_MESSAGE_0(const int*, ptrs); DYNAMIX_V1_CREATE_COMBINATOR_CALL_0(const int*, ptrs);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_1(int, ints, arg, a); DYNAMIX_V1_CREATE_COMBINATOR_CALL_1(int, ints, arg, a);
DYNAMIX_V1_MULTICAST_MESSAGE_2(double, dbls, const arg&, a, int, i); DYNAMIX_V1_CREATE_COMBINATOR_CALL_2(double, dbls, const arg&, a, int, i);
DYNAMIX_V1_MULTICAST_MESSAGE_1(int, dints, arg, a); DYNAMIX_V1_CREATE_COMBINATOR_CALL_1(int, dints, arg, a); // has a default implementation
// two messages with the same method name
DYNAMIX_V1_MULTICAST_MESSAGE_1_OVERLOAD(dints_more, int, dints, int, n); DYNAMIX_V1_CREATE_COMBINATOR_CALL_1_OVERLOAD(dints_more, int, dints, int, n);

namespace {
int g_val[4]; // what the mixins return
std::vector<std::string> g_trace;
const dynamix::object* g_obj;
int g_throws; // which mixin throws
mixin_info* g_infos[4];
void called(int i, const std::string& a = "") { g_trace.push_back(std::string(1, char('a' + i)) + a); if (g_throws == i) throw std::runtime_error("planned"); }
const int g_int = 0;
}
template <int I> struct M {
    static constexpr int idx = I;
    int magic = 1000 + I; char pad[1 + 20 * (I & 1)];
    void self() const { MC_CHECK(magic == 1000 + I && object_of(this) == g_obj, "the mixin of the object"); }
    bool flags() const { self(); called(I); return g_val[I] != 0; }
    const int* ptrs() { self(); called(I); return g_val[I] ? &g_int : nullptr; }
    int ints(arg a) const { self(); called(I, a.v); return g_val[I]; }
    double dbls(const arg& a, int i) { self(); called(I, a.v + std::to_string(i)); return g_val[I] + 0.5; }
    int dints(arg a) { self(); called(I, a.v); return g_val[I]; }
    int dints(int n) { self(); called(I, std::to_string(n)); return g_val[I] + n; }
};
template <int I> const mixin_info& _dynamix_get_mixin_info(const M<I>*) { return *g_infos[I]; }
DYNAMIX_V1_DEFINE_MESSAGE(flags); DYNAMIX_V1_DEFINE_MESSAGE(ptrs); DYNAMIX_V1_DEFINE_MESSAGE(ints); DYNAMIX_V1_DEFINE_MESSAGE(dbls);
DYNAMIX_V1_DEFINE_MESSAGE_1_WITH_DEFAULT_IMPL(int, dints, arg, a) { g_trace.push_back("default" + a.v); MC_CHECK(&dm_self == g_obj, "the object"); if (g_throws == 4) throw std::runtime_error("planned"); return 77; }
DYNAMIX_V1_DEFINE_MESSAGE_1_WITH_DEFAULT_IMPL(int, dints_more, int, n) { g_trace.push_back("default" + std::to_string(n)); return 78 + n; }

namespace {
std::string joined(const std::vector<std::string>& v) { std::string r; for (auto& s : v) r += s + " "; return r; }
// ---------------------------------------------------------------- directly
// one combinator under all sequences of calls; the model is the list of results since the last reset
template <typename C, typename V, typename F> void direct(int len, const std::vector<V>& vals, bool is_mean, F&& expect) {
    int n = mc::choose(len + 1); std::vector<int> ops; for (int i = 0; i < n; ++i) ops.push_back(mc::choose(int(vals.size()) + 3));
    if (mc::pruned()) return;
    C c; std::vector<V> results; int num = -1;
    auto check = [&] {
        if (is_mean && num <= 0) return; // a mean needs to know the number of results
        auto [r, cont] = expect(results, num);
        MC_EQ(typename C::result_type(c.result()), typename C::result_type(r), "result"); MC_EQ(typename C::result_type(c.result()), typename C::result_type(r), "result, asked for again");
    };
    check();
    for (int o : ops) {
        if (o < int(vals.size())) {
            MC_STEP("result " << vals[size_t(o)]);
            results.push_back(vals[size_t(o)]);
            bool cont = c.add_result(vals[size_t(o)]);
            MC_EQ(cont, expect(results, 1).second, "whether more results are wanted");
        }
        else if (o == int(vals.size())) { MC_STEP("reset"); c.reset(); results.clear(); num = -1; }
        else { int k = o - int(vals.size()); MC_STEP(k << " results"); c.set_num_results(size_t(k)); num = k; }
        check();
    }
}
template <typename V> std::pair<bool, bool> and_(const std::vector<V>& r, int) { bool x = std::all_of(r.begin(), r.end(), [](auto& v) { return bool(v); }); return {x, x}; }
template <typename V> std::pair<bool, bool> or_(const std::vector<V>& r, int) { bool x = std::any_of(r.begin(), r.end(), [](auto& v) { return bool(v); }); return {x, !x}; }
template <typename V> std::pair<V, bool> sum_(const std::vector<V>& r, int) { V s = 0; for (auto& v : r) s += v; return {s, true}; }
template <typename V> std::pair<V, bool> mean_(const std::vector<V>& r, int n) { return {V(sum_(r, 0).first / V(n)), true}; }
// class results
struct onoff { int v; explicit operator bool() const { return v > 0; } friend std::ostream& operator<<(std::ostream& s, const onoff& o) { return s << "onoff " << o.v; } };
struct vec2 { int x, y; vec2(int v) : x(v), y(v) {} vec2(int x, int y) : x(x), y(y) {} vec2& operator+=(const vec2& o) { x += o.x; y += o.y; return *this; } friend vec2 operator/(vec2 a, const vec2& b) { return {a.x / b.x, a.y / b.y}; } bool operator==(const vec2& o) const { return x == o.x && y == o.y; } friend std::ostream& operator<<(std::ostream& s, const vec2& o) { return s << o.x << ":" << o.y; } };

// ---------------------------------------------------------------- through messages
struct world {
    world_guard wg;
    res dres{"domain"}, ores{"objects"}, ires{"infos"};
    std::unique_ptr<domain> d; std::deque<util::mixin_info_data> data; std::vector<feature_info*> fs;
    world(bool canonical) { domain_settings s = {}; s.canonicalize_types = canonical; d = std::make_unique<domain>("d", s, 0, nullptr, allocator(&dres)); }
    template <typename Msg> void reg() { auto f = const_cast<feature_info*>(static_cast<const feature_info*>(&Msg::get_info_safe())); d->register_feature(*f); fs.push_back(f); }
    ~world() {
        for (auto& x : data) if (x.info.registered()) d->unregister_mixin(x.info);
        for (auto f : fs) d->unregister_feature(*f);
        d.reset(); data.clear();
    }
};
// what the combinator got
template <typename V> struct recorder {
    typedef std::string result_type;
    std::vector<std::string> got; int stop_at = 99, n = 0;
    void set_num_results(size_t k) { got.push_back("num " + std::to_string(k)); }
    bool add_result(const V& v) { std::ostringstream s; if constexpr (std::is_pointer_v<V>) s << (v ? "ptr" : "null"); else s << v; got.push_back(s.str()); g_trace.push_back("got"); return ++n < stop_at; }
    std::string result() const { std::string s; for (auto& x : got) s += x + ";"; return s; }
};
struct per_mixin { bool in; int bid, prio, val; };
struct expected_t { std::vector<std::string> trace, got; bool error = false, thrown = false; std::vector<int> results; };

void through(int n, int nbids, int nprios, int nvals) {
    std::vector<per_mixin> pm;
    for (int i = 0; i < n; ++i) { int c = mc::choose(1 + nbids * nprios), v = c ? mc::choose(nvals) : 0; pm.push_back({c > 0, c ? (c - 1) / nprios : 0, c ? (c - 1) % nprios : 0, v}); }
    int which = mc::choose(6), how = mc::choose(7); // message; combinator
    int extra = how == 0 ? mc::choose(n + 1) : how == 1 ? mc::choose(n + 2) : 0; // when to stop; who throws
    if (mc::pruned()) return;
    for (int i = 0; i < n; ++i) { g_val[i] = pm[size_t(i)].val * 3 - 3; MC_LOG(char('a' + i) << (pm[size_t(i)].in ? MC_STR(": bid " << pm[size_t(i)].bid << " priority " << pm[size_t(i)].prio << " returns " << g_val[i]) : ": doesn't implement")); }
    static const char* mn[] = {"flags", "ptrs", "ints", "dbls", "dints", "dints overload"}; static const char* hn[] = {"recorder", "recorder with a throwing mixin", "boolean_and", "boolean_or", "sum", "mean", "plain"};
    MC_STEP(mn[which] << " with " << hn[how] << " " << extra);
    world w(false);
    w.reg<flags_msg_t>(); w.reg<ptrs_msg_t>(); w.reg<ints_msg_t>(); w.reg<dbls_msg_t>(); w.reg<dints_msg_t>(); w.reg<dints_more_msg_t>();
    infos v;
    auto add = [&](auto* tag) {
        using X = std::remove_pointer_t<decltype(tag)>; auto& p = pm[X::idx];
        w.data.emplace_back(allocator(&w.ires)); static const char* nm[] = {"A", "B", "C", "D"};
        util::mixin_info_data_builder<X> b(w.data.back(), std::string_view(nm[X::idx])); g_infos[X::idx] = &w.data.back().info;
        util::builder_perks bp{p.bid, p.prio};
        if (p.in) b.template implements<flags_msg_t>(bp).template implements<ptrs_msg_t>(bp).template implements<ints_msg_t>(bp).template implements<dbls_msg_t>(bp).template implements<dints_msg_t>(bp).template implements<dints_more_msg_t>(bp);
        w.d->register_mixin(w.data.back().info); v.push_back(&w.data.back().info);
    };
    if (n > 0) add((M<0>*)nullptr); if (n > 1) add((M<1>*)nullptr); if (n > 2) add((M<2>*)nullptr); if (n > 3) add((M<3>*)nullptr);
    {
        dynamix::object o(w.d->get_type(v), allocator(&w.ores));
        g_obj = &o; g_trace.clear(); g_throws = how == 1 ? (extra == n ? 4 : extra) : -1;
        // reference: those with the top bid, by ascending priority and then in the order of mixins
        std::vector<int> order; int top = INT32_MIN;
        for (int i = 0; i < n; ++i) if (pm[size_t(i)].in) top = std::max(top, pm[size_t(i)].bid);
        for (int i = 0; i < n; ++i) if (pm[size_t(i)].in && pm[size_t(i)].bid == top) order.push_back(i);
        std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return pm[size_t(a)].prio > pm[size_t(b)].prio; });
        bool has_def = which >= 4, is_default = order.empty();
        int stop = how == 0 ? (extra == n ? 99 : extra + 1) : 99;
        std::vector<std::string> trace, got; std::vector<double> results; bool error = false, thrown = false;
        auto value = [&](int i) -> double { int x = g_val[i]; switch (which) { case 0: case 1: return x != 0; case 3: return x + 0.5; case 5: return x + 5; default: return x; } };
        std::string as = which == 2 || which == 4 ? "X" : which == 3 ? "Y3" : which == 5 ? "5" : "";
        auto text = [&](double x) { std::ostringstream s; if (which == 1) s << (x ? "ptr" : "null"); else s << x; return s.str(); };
        bool rec = how <= 1;
        auto feed = [&](double x) { // false: stop
            results.push_back(x); if (rec) trace.push_back("got");
            got.push_back(text(x));
            if (how == 2) return x != 0; if (how == 3) return x == 0;
            return int(results.size()) < stop;
        };
        if (is_default) {
            got.push_back("num 1");
            if (!has_def) error = true;
            else if (g_throws == 4 && which == 4) { trace.push_back("default" + as); thrown = true; }
            else { trace.push_back("default" + as); feed(which == 4 ? 77 : 83); }
        }
        else {
            got.push_back("num " + std::to_string(order.size()));
            for (int i : order) { trace.push_back(std::string(1, char('a' + i)) + as); if (g_throws == i) { thrown = true; break; } if (!feed(value(i))) break; }
        }
        if (how == 6) { g_trace.clear(); }
        // the call
        std::string oc; double result = 0; bool rthrown = false; std::string rgot; bool num_only = false;
        auto go = [&](auto&& f) { try { oc = outcome_of(f); } catch (...) { oc = "other"; } if (oc == "std_exception") { rthrown = true; oc = ""; } };
        arg x("X"), y("Y");
#define CALL(C) switch (which) { case 0: flags(o, C); break; case 1: ptrs(o, C); break; case 2: ints(o, x, C); break; case 3: dbls(o, y, 3, C); break; case 4: dints(o, x, C); break; case 5: dints(o, 5, C); break; }
#define TCALL(C) switch (which) { case 0: result = double(flags<C>(o)); break; case 1: result = double(bool(ptrs<C>(o))); break; case 2: result = double(ints<C>(o, x)); break; case 3: result = double(dbls<C>(o, y, 3)); break; case 4: result = double(dints<C>(o, x)); break; case 5: result = double(dints<C>(o, 5)); break; }
#define NCALL(C) switch (which) { case 2: result = double(ints<C>(o, x)); break; case 3: result = double(dbls<C>(o, y, 3)); break; case 4: result = double(dints<C>(o, x)); break; case 5: result = double(dints<C>(o, 5)); break; default: num_only = true; break; }
        auto record = [&](auto c, auto f) { c.stop_at = stop; go([&] { f(c); }); rgot = c.result(); };
        switch (how) {
        case 0: case 1:
            switch (which) {
            case 0: record(recorder<bool>(), [&](auto& c) { flags(o, c); }); break;
            case 1: record(recorder<const int*>(), [&](auto& c) { ptrs(o, c); }); break;
            case 2: record(recorder<int>(), [&](auto& c) { ints(o, x, c); }); break;
            case 3: record(recorder<double>(), [&](auto& c) { dbls(o, y, 3, c); }); break;
            case 4: record(recorder<int>(), [&](auto& c) { dints(o, x, c); }); break;
            default: record(recorder<int>(), [&](auto& c) { dints(o, 5, c); }); break;
            }
            break;
        case 2: go([&] { TCALL(comb::boolean_and) }); break;
        case 3: go([&] { TCALL(comb::boolean_or) }); break;
        case 4: go([&] { NCALL(comb::sum) }); break;
        case 5: go([&] { NCALL(comb::mean) }); break;
        case 6: go([&] { switch (which) { case 0: result = flags(o); break; case 1: result = bool(ptrs(o)); break; case 2: result = ints(o, x); break; case 3: result = dbls(o, y, 3); break; case 4: result = dints(o, x); break; default: result = dints(o, 5); break; } }); break;
        }
        if (!num_only) {
            MC_EQ(oc, std::string(error ? "feature_error" : ""), "error");
            MC_EQ(rthrown, thrown, "an exception of a mixin is passed on");
            MC_EQ(joined(g_trace), joined(trace), "the calls");
            if (rec) {
                std::string e; for (auto& s : got) e += s + ";";
                MC_EQ(rgot, e, "what the combinator got");
            }
            else if (!error) {
                double s = 0; bool all = true, any = false; for (double r : results) { s += r; all = all && r != 0; any = any || r != 0; }
                double want = how == 2 ? all : how == 3 ? any : how == 4 ? s : how == 5 ? (which == 3 ? s / double(results.size()) : double(int(s) / int(results.size()))) : results.back();
                MC_EQ(result, want, "the result");
            }
            MC_EQ(y.v, std::string("Y"), "arguments given by reference remain");
        }
        // combinators of the caller, reused with a reset
        if (how >= 2 && how <= 3) {
            comb::boolean_and<bool> ba; comb::boolean_or<bool> bo;
            for (int rep = 0; rep < 2; ++rep) {
                g_trace.clear(); oc = "";
                if (which == 0) { go([&] { if (how == 2) flags(o, ba); else flags(o, bo); }); if (oc.empty()) MC_EQ(how == 2 ? ba.result() : bo.result(), result != 0, "the result in a given combinator"); MC_EQ(joined(g_trace), joined(trace), "the calls with a given combinator"); }
                ba.reset(); bo.reset();
            }
        }
        if ((how == 4 || how == 5) && which == 4) {
            comb::sum<int> su; comb::mean<int> me;
            for (int rep = 0; rep < 2; ++rep) {
                go([&] { if (how == 4) dints(o, x, su); else dints(o, x, me); });
                MC_EQ(double(how == 4 ? su.result() : me.result()), result, "the result in a given combinator");
                su.reset(); me.reset();
            }
        }
        std::string k; for (auto& s : g_trace) k += s; mc::outcome(MC_STR(which << how << k << rgot << result << oc));
        g_throws = -1;
    }
}
}
int main(int argc, char** argv) {
    v1compat::domain::instance();
    auto len = [] { return mc::pick(5, 7); };
    mc::section("direct/and", [=] { direct<comb::boolean_and<>>(len(), std::vector<int>{0, 1}, false, and_<int>); });
    mc::section("direct/and-int", [=] { direct<comb::boolean_and<int>>(len(), std::vector<int>{0, 1, -5, 256}, false, and_<int>); });
    mc::section("direct/and-pointer", [=] { direct<comb::boolean_and<const int*>>(len(), std::vector<const int*>{nullptr, &g_int}, false, and_<const int*>); });
    mc::section("direct/and-class", [=] { direct<comb::boolean_and<onoff>>(len(), std::vector<onoff>{{0}, {1}, {-1}}, false, and_<onoff>); });
    mc::section("direct/or", [=] { direct<comb::boolean_or<>>(len(), std::vector<int>{0, 1}, false, or_<int>); });
    mc::section("direct/or-int", [=] { direct<comb::boolean_or<int>>(len(), std::vector<int>{0, 1, -5, 256}, false, or_<int>); });
    mc::section("direct/or-class", [=] { direct<comb::boolean_or<onoff>>(len(), std::vector<onoff>{{0}, {1}, {-1}}, false, or_<onoff>); });
    mc::section("direct/sum", [=] { direct<comb::sum<int>>(len(), std::vector<int>{0, 1, -7, 1000000}, false, sum_<int>); });
    mc::section("direct/sum-double", [=] { direct<comb::sum<double>>(len(), std::vector<double>{0.25, -1, 1e10}, false, sum_<double>); });
    mc::section("direct/sum-class", [=] { direct<comb::sum<vec2>>(len(), std::vector<vec2>{{1, 2}, {-3, 7}}, false, sum_<vec2>); });
    mc::section("direct/mean", [=] { direct<comb::mean<int>>(len(), std::vector<int>{0, 1, -7, 1000000}, true, mean_<int>); });
    mc::section("direct/mean-double", [=] { direct<comb::mean<double>>(len(), std::vector<double>{0.25, -1, 1e10}, true, mean_<double>); });
    mc::section("direct/mean-class", [=] { direct<comb::mean<vec2>>(len(), std::vector<vec2>{{1, 2}, {-3, 7}}, true, mean_<vec2>); });
    mc::section("through/up-to-2", [] { through(mc::choose(3), 2, 2, 3); });
    mc::section("through/3", [] { through(3, 2, 2, 2); });
    mc::section("through/4", [] { through(4, mc::pick(1, 2), 2, 2); });
    return mc::main_(argc, argv, [] { setup_default(); });
}
