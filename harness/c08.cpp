// Messages: who is called, in which order, with which arguments, and what comes back, for all tables and all ways of passing on.
#include "kit.hpp"
#include "wide.hpp"
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/next_impl.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <algorithm>
using namespace kit;

// an argument which shows whether it was moved away
struct arg {
    std::string v;
    arg(std::string s) : v(std::move(s)) {}
    arg(const arg& o) : v(o.v) {}
    arg(arg&& o) noexcept : v(std::move(o.v)) { o.v = "moved"; }
    arg& operator=(const arg&) = default;
};
struct obj_t : object { using object::object; };

DYNAMIX_DECLARE_SIMPLE_MSG(uni_msg, int(obj_t&, arg, int&));
DYNAMIX_DECLARE_SIMPLE_MSG(multi_msg, int(obj_t&, arg, int&));
DYNAMIX_DECLARE_SIMPLE_MSG(cuni_msg, int(const obj_t&, arg, int&));
DYNAMIX_DECLARE_SIMPLE_MSG(cmulti_msg, int(const obj_t&, arg, int&));
DYNAMIX_DECLARE_SIMPLE_MSG(ptr_msg, mc::uptr<int>(obj_t&, mc::uptr<int>));
DYNAMIX_DECLARE_SIMPLE_MSG(ref_msg, int&(obj_t&, int&, const arg&));
DYNAMIX_DECLARE_SIMPLE_MSG(wide_uni_msg, int(obj_t&, arg));
DYNAMIX_DECLARE_SIMPLE_MSG(wide_multi_msg, int(obj_t&, arg));
DYNAMIX_DECLARE_SIMPLE_MSG(chg_uni_msg, int(obj_t&, int));
DYNAMIX_DECLARE_SIMPLE_MSG(chg_multi_msg, int(obj_t&, int));
DYNAMIX_DECLARE_MSG(fuu_msg, fuu, int, (obj_t&, arg, int&));
DYNAMIX_DECLARE_MSG(fum_msg, fum, int, (obj_t&, arg, int&));
DYNAMIX_DECLARE_MSG(fcm_msg, fcm, int, (const obj_t&, arg, int&));
DYNAMIX_DECLARE_MSG(fvm_msg, fvm, void, (const obj_t&, arg, int&));

namespace {
enum { m_plain, m_next, m_next_forced, m_bidders, m_top, m_throw, m_count };
const char* mode_name(int m) { static const char* n[] = {"plain", "next if any", "next", "bidder set", "next top", "throw"}; return n[m]; }
int g_mode[4];
std::vector<std::string> g_trace;
const void* g_obj;

mixin_info* g_infos[4];
template <typename Msg, typename M> int handle(M* self, arg a, int& acc);
}
template <int I> struct many { int magic = 1000 + I; char pad[(I * 7) % 50 + 1]; };
static const mixin_info* g_many[80];
template <int I> const mixin_info& _dynamix_get_mixin_info(const many<I>*) { return *g_many[I]; }
struct A; struct B; struct C; struct D;
const mixin_info& _dynamix_get_mixin_info(const A*);
const mixin_info& _dynamix_get_mixin_info(const B*);
const mixin_info& _dynamix_get_mixin_info(const C*);
const mixin_info& _dynamix_get_mixin_info(const D*);
template <int I, typename Self>
struct base {
    static constexpr int idx = I;
    int magic = 1000 + I;
    int fuu(arg a, int& acc);
    int fum(arg a, int& acc);
    int fcm(arg a, int& acc) const;
    void fvm(arg a, int& acc) const;
};
struct A : base<0, A> {};
struct B : base<1, B> { char pad[40]; };
struct C : base<2, C> { alignas(32) char pad[5]; };
struct D : base<3, D> {};

DYNAMIX_MAKE_FUNC_TRAITS(fuu);
DYNAMIX_MAKE_FUNC_TRAITS(fum);
DYNAMIX_MAKE_FUNC_TRAITS(fcm);
DYNAMIX_MAKE_FUNC_TRAITS(fvm);
static mc::uptr<int> ptr_def(obj_t& o, mc::uptr<int> p) { g_trace.push_back("default"); MC_CHECK(&o == g_obj, "object given to the default implementation"); *p += 7; return p; }
static int mdef(obj_t& o, arg a, int& acc) { g_trace.push_back("default " + a.v); MC_CHECK(&o == g_obj, "object given to the default implementation"); acc += 1000; return 77; }
static int cdef(const obj_t& o, arg a, int& acc) { g_trace.push_back("default " + a.v); MC_CHECK(&o == g_obj, "object given to the default implementation"); acc += 1000; return 77; }
DYNAMIX_DEFINE_SIMPLE_MSG(uni_msg, unicast);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(multi_msg, multicast, true, mdef);
DYNAMIX_DEFINE_SIMPLE_MSG(wide_uni_msg, unicast);
DYNAMIX_DEFINE_SIMPLE_MSG(wide_multi_msg, multicast);
static int chg_default(obj_t&, int);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(chg_uni_msg, unicast, true, chg_default);
DYNAMIX_DEFINE_SIMPLE_MSG(chg_multi_msg, multicast);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(cuni_msg, unicast, true, cdef);
DYNAMIX_DEFINE_SIMPLE_MSG(cmulti_msg, multicast);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(ptr_msg, unicast, true, ptr_def);
DYNAMIX_DEFINE_SIMPLE_MSG(ref_msg, unicast);
DYNAMIX_DEFINE_MSG(fuu_msg, unicast, fuu, int, (obj_t&, arg, int&));
DYNAMIX_DEFINE_MSG_EX(fum_msg, multicast, true, mdef, fum, int, (obj_t&, arg, int&));
DYNAMIX_DEFINE_MSG_EX(fcm_msg, multicast, true, cdef, fcm, int, (const obj_t&, arg, int&));
DYNAMIX_DEFINE_MSG(fvm_msg, multicast, fvm, void, (const obj_t&, arg, int&));

const mixin_info& _dynamix_get_mixin_info(const A*) { return *g_infos[0]; }
const mixin_info& _dynamix_get_mixin_info(const B*) { return *g_infos[1]; }
const mixin_info& _dynamix_get_mixin_info(const C*) { return *g_infos[2]; }
const mixin_info& _dynamix_get_mixin_info(const D*) { return *g_infos[3]; }

namespace {
template <typename Msg, typename M> int handle(M* self, arg a, int& acc) {
    constexpr int idx = std::remove_cv_t<M>::idx;
    MC_CHECK(self->magic == 1000 + idx, "the message came to something which isn't its mixin");
    MC_CHECK(object_of(self) == g_obj, "object_of inside of a message");
    g_trace.push_back(std::string(1, char('a' + idx)) + ":" + a.v);
    acc += 1 << (4 * idx);
    std::string sub = a.v + char('a' + idx);
    switch (g_mode[idx]) {
    case m_plain: return 10 + idx;
    case m_next:
        if (!has_next_impl_msg<Msg>(self)) return 10 + idx;
        [[fallthrough]];
    case m_next_forced: return 100 + call_next_impl_msg<Msg>(self, arg(sub), acc);
    case m_bidders:
        MC_LOG("  has next bidder set: " << has_next_bidder_set<Msg>(self));
        g_trace.push_back(has_next_bidder_set<Msg>(self) ? "has set" : "has no set");
        return 200 + call_next_bidder_set<Msg>(self, arg(sub), acc);
    case m_top: return 300 + call_next_bidder_top<Msg>(self, arg(sub), acc);
    default: throw std::runtime_error("planned");
    }
}
}
template <int I, typename S> int base<I, S>::fuu(arg a, int& acc) { return handle<fuu_msg>(static_cast<S*>(this), std::move(a), acc); }
template <int I, typename S> int base<I, S>::fum(arg a, int& acc) { return handle<fum_msg>(static_cast<S*>(this), std::move(a), acc); }
template <int I, typename S> int base<I, S>::fcm(arg a, int& acc) const { return handle<fcm_msg>(static_cast<const S*>(this), std::move(a), acc); }
template <int I, typename S> void base<I, S>::fvm(arg a, int& acc) const {
    MC_CHECK(this->magic == 1000 + I, "the message came to something which isn't its mixin");
    g_trace.push_back(std::string(1, char('a' + I)) + ":" + a.v);
    acc += 1 << (4 * I);
    if (g_mode[I] == m_next && has_next_impl_msg<fvm_msg>(static_cast<const S*>(this))) call_next_impl_msg<fvm_msg>(static_cast<const S*>(this), arg(a.v + char('a' + I)), acc);
    if (g_mode[I] == m_throw) throw std::runtime_error("planned");
}

namespace {
struct impl { int mixin; int idx; int bid, prio; };
// reference
struct model {
    std::vector<impl> order; // best first
    std::vector<std::string> trace;
    int acc = 0;
    size_t pos(int m) { for (size_t i = 0; i < order.size(); ++i) if (order[i].mixin == m) return i; return order.size(); }
    int run_one(size_t k, const std::string& a) {
        int m = order[k].mixin;
        trace.push_back(std::string(1, char('a' + m)) + ":" + a);
        acc += 1 << (4 * m);
        std::string sub = a + char('a' + m);
        size_t b = k; while (b < order.size() && order[b].bid == order[k].bid) ++b;
        switch (g_mode[m]) {
        case m_plain: return 10 + m;
        case m_next: if (k + 1 == order.size()) return 10 + m; [[fallthrough]];
        case m_next_forced: if (k + 1 == order.size()) throw feature_error("x"); return 100 + run_one(k + 1, sub);
        case m_bidders: trace.push_back(b < order.size() ? "has set" : "has no set"); if (b == order.size()) throw feature_error("x"); return 200 + run_set(b, sub);
        case m_top: if (b == order.size()) throw feature_error("x"); return 300 + run_one(b, sub);
        default: throw std::runtime_error("planned");
        }
    }
    int run_set(size_t b, const std::string& a) {
        size_t e = b; while (e < order.size() && order[e].bid == order[b].bid) ++e;
        int r = 0;
        for (size_t k = e; k-- > b;) r = run_one(k, a);
        return r;
    }
};

struct world {
    world_guard wg;
    res dres{"domain"}, ores{"objects"}, ires{"infos"};
    std::unique_ptr<domain> d;
    std::deque<util::mixin_info_data> data;
    std::vector<feature_info*> fs;
    world() { d = std::make_unique<domain>("d", domain_settings{}, 0, nullptr, allocator(&dres)); }
    template <typename Msg> void reg() { auto f = const_cast<feature_info*>(static_cast<const feature_info*>(&Msg::get_info_safe())); d->register_feature(*f); fs.push_back(f); }
    ~world() {
        for (auto& x : data) if (x.info.registered()) d->unregister_mixin(x.info);
        for (auto f : fs) d->unregister_feature(*f);
        d.reset(); data.clear();
    }
};
// make the infos; M implements every message with the same perks
template <typename M, typename F>
void make(world& w, int i, bool impls, int bid, int prio, F&& f) {
    w.data.emplace_back(allocator(&w.ires));
    static const char* n[] = {"A", "B", "C", "D"};
    util::mixin_info_data_builder<M> b(w.data.back(), std::string_view(n[i]));
    g_infos[i] = &w.data.back().info;
    if (impls) f(b, util::builder_perks{bid, prio});
    w.d->register_mixin(w.data.back().info);
}
struct per_mixin { bool in; int bid, prio; };
void run(int n, int nbids, int nprios, const std::vector<int>& modes) {
    std::vector<int> perm; for (int i = 0; i < n; ++i) perm.push_back(i);
    std::vector<per_mixin> pm;
    for (int i = 0; i < n; ++i) { int c = mc::choose(1 + nbids * nprios); pm.push_back({c > 0, c ? (c - 1) / nprios : 0, c ? (c - 1) % nprios : 0}); }
    int ord = mc::choose(n == 2 ? 2 : n == 3 ? 6 : 24);
    while (ord-- > 0) std::next_permutation(perm.begin(), perm.end());
    for (int i = 0; i < n; ++i) g_mode[i] = pm[size_t(i)].in ? modes[size_t(mc::choose(int(modes.size())))] : m_plain;
    if (mc::pruned()) return;
    for (int i = 0; i < n; ++i) MC_LOG(char('a' + i) << (pm[size_t(i)].in ? MC_STR(": bid " << pm[size_t(i)].bid << " priority " << pm[size_t(i)].prio << " " << mode_name(g_mode[i])) : ": doesn't implement"));
    world w;
    w.reg<uni_msg>(); w.reg<multi_msg>(); w.reg<cuni_msg>(); w.reg<cmulti_msg>(); w.reg<ptr_msg>(); w.reg<ref_msg>(); w.reg<fuu_msg>(); w.reg<fum_msg>(); w.reg<fcm_msg>(); w.reg<fvm_msg>();
    auto add = [&](auto* tag, int i) {
        using M = std::remove_pointer_t<decltype(tag)>;
        make<M>(w, i, pm[size_t(i)].in, pm[size_t(i)].bid, pm[size_t(i)].prio, [](auto& b, util::builder_perks p) {
            b.template implements_by<uni_msg>([](M* m, arg a, int& r) { return handle<uni_msg>(m, std::move(a), r); }, p);
            b.template implements_by<multi_msg>([](M* m, arg a, int& r) { return handle<multi_msg>(m, std::move(a), r); }, p);
            b.template implements_by<cuni_msg>([](const M* m, arg a, int& r) { return handle<cuni_msg>(m, std::move(a), r); }, p);
            b.template implements_by<cmulti_msg>([](const M* m, arg a, int& r) { return handle<cmulti_msg>(m, std::move(a), r); }, p);
            b.template implements_by<ptr_msg>([](M* m, mc::uptr<int> q) { g_trace.push_back(std::string(1, char('a' + M::idx))); *q += m->magic; return q; }, p);
            b.template implements_by<ref_msg>([](M* m, int& r, const arg& a) -> int& { g_trace.push_back(std::string(1, char('a' + M::idx)) + a.v); r += m->magic; return r; }, p);
            b.template implements<fuu_msg>(p).template implements<fum_msg>(p).template implements<fcm_msg>(p).template implements<fvm_msg>(p);
        });
    };
    add((A*)nullptr, 0); add((B*)nullptr, 1); if (n > 2) add((C*)nullptr, 2); if (n > 3) add((D*)nullptr, 3);
    infos v; for (int i : perm) v.push_back(g_infos[i]);
    obj_t o(w.d->get_type(v), allocator(&w.ores));
    g_obj = &o;
    std::vector<impl> order;
    for (int i = 0; i < n; ++i) { int m = perm[size_t(i)]; if (pm[size_t(m)].in) order.push_back({m, i, pm[size_t(m)].bid, pm[size_t(m)].prio}); }
    std::sort(order.begin(), order.end(), [](const impl& a, const impl& b) { return a.bid != b.bid ? a.bid > b.bid : a.prio != b.prio ? a.prio < b.prio : a.idx > b.idx; });
    std::string oc;
    auto cmp = [&](const char* name, bool multicast, bool def, bool mayloop, auto&& call) {
        MC_STEP("call " << name);
        model m; m.order = order;
        std::string exp, got;
        int er = 0, gr = 0, gacc = 0;
        exp = outcome_of([&] {
            if (order.empty()) { if (!def) throw feature_error("none"); m.trace.push_back("default x"); m.acc += 1000; er = 77; return; }
            er = multicast ? m.run_set(0, "x") : m.run_one(0, "x");
        });
        g_trace.clear();
        arg a("x");
        got = outcome_of([&] { gr = call(a, gacc); });
        MC_EQ(got, exp, name << ": outcome");
        if (exp.empty()) MC_EQ(gr, er, name << ": result");
        MC_EQ(gacc, m.acc, name << ": effect on a reference argument");
        MC_CHECK(a.v == "x", name << ": the caller's argument was changed");
        auto show = [](const std::vector<std::string>& t) { std::string r; for (auto& s : t) r += s + ","; return r; };
        MC_EQ(show(g_trace), show(m.trace), name << ": calls");
        oc += show(m.trace) + ";";
    };
    cmp("uni", false, false, false, [&](arg& a, int& r) { return uni_msg::call(o, a, r); });
    cmp("multi", true, true, false, [&](arg& a, int& r) { return multi_msg::call(o, a, r); });
    cmp("const uni", false, true, false, [&](arg& a, int& r) { return cuni_msg::call(o, a, r); });
    cmp("const multi", true, false, false, [&](arg& a, int& r) { return cmulti_msg::call(o, a, r); });
    cmp("function uni", false, false, false, [&](arg& a, int& r) { return fuu(o, a, r); });
    cmp("function multi", true, true, false, [&](arg& a, int& r) { return fum(o, a, r); });
    cmp("function const multi", true, true, false, [&](arg& a, int& r) { return fcm(o, a, r); });
    cmp("traits call of function message", false, false, false, [&](arg& a, int& r) { return fuu_msg::call(o, a, r); });
    // results and arguments which are references or can only be moved
    {
        MC_STEP("call with a move-only argument and result");
        g_trace.clear();
        mc::uptr<int> r;
        auto p = std::make_unique<int>(1); auto raw = p.get();
        auto e = outcome_of([&] { r = ptr_msg::call(o, std::move(p)); });
        MC_CHECK(e.empty(), "move-only argument: " << e);
        MC_CHECK(r.get() == raw && !p, "move-only argument and result");
        MC_EQ(*r, order.empty() ? 8 : 1 + 1000 + order[0].mixin, "value through a move-only argument");
        MC_STEP("call with a reference result");
        g_trace.clear();
        int x = 5; const arg ca("k"); int* rp = nullptr;
        e = outcome_of([&] { rp = &ref_msg::call(o, x, ca); });
        MC_EQ(e.empty(), !order.empty(), "reference result: outcome " << e);
        if (e.empty()) { MC_CHECK(rp == &x, "the reference returned isn't the one passed"); MC_EQ(x, 5 + 1000 + order[0].mixin, "value through a reference"); MC_EQ(g_trace.size(), size_t(1), "calls"); }
    }
    {
        MC_STEP("call of a void message");
        g_trace.clear();
        int acc = 0; arg a("x");
        model m; m.order = order;
        int keep[4]; memcpy(keep, g_mode, sizeof keep);
        for (auto& x : g_mode) if (x != m_next && x != m_throw) x = m_plain;
        std::string exp = outcome_of([&] { if (order.empty()) throw feature_error("none"); m.run_set(0, "x"); });
        auto e = outcome_of([&] { fvm(o, a, acc); });
        memcpy(g_mode, keep, sizeof keep);
        MC_EQ(e, exp, "void message: outcome");
        MC_EQ(acc, m.acc, "void message: calls");
        MC_CHECK(g_trace == m.trace, "void message: trace");
    }
    // an object without mixins
    {
        obj_t em(*w.d, allocator(&w.ores)); g_obj = &em; int r = 0;
        MC_STEP("calls on an empty object");
        MC_EQ(outcome_of([&] { uni_msg::call(em, arg("x"), r); }), std::string("feature_error"), "message without default on an empty object");
        MC_EQ(multi_msg::call(em, arg("x"), r), 77, "message with a default on an empty object");
        MC_EQ(outcome_of([&] { fvm(em, arg("x"), r); }), std::string("feature_error"), "message without default on an empty object");
    }
    mc::outcome(oc);
}
// ---------------------------------------------------------------- many implementers
enum { w_plain, w_next, w_set, w_top };
int g_wide_mode;
std::vector<std::pair<int, size_t>> g_wide; // mixin and length of the argument
template <typename Msg, int I> int wide_handle(many<I>* self, arg a) {
    MC_CHECK(self->magic == 1000 + I, "the message came to something which isn't its mixin");
    g_wide.push_back({I, a.v.size()});
    switch (g_wide_mode) {
    case w_next: if (has_next_impl_msg<Msg>(self)) return 1000 + call_next_impl_msg<Msg>(self, arg(a.v + ".")); break;
    case w_set: if (has_next_bidder_set<Msg>(self)) return 1000 + call_next_bidder_set<Msg>(self, arg(a.v + ".")); break;
    case w_top: if (has_next_bidder_set<Msg>(self)) return 1000 + call_next_bidder_top<Msg>(self, arg(a.v + ".")); break;
    }
    return I;
}
struct wide_model {
    std::vector<impl> order;
    std::vector<std::pair<int, size_t>> trace;
    size_t end_of(size_t k) { size_t b = k; while (b < order.size() && order[b].bid == order[k].bid) ++b; return b; }
    int one(size_t k, size_t len) {
        trace.push_back({order[k].mixin, len});
        size_t b = end_of(k);
        if (g_wide_mode == w_next && k + 1 < order.size()) return 1000 + one(k + 1, len + 1);
        if (g_wide_mode == w_set && b < order.size()) return 1000 + set(b, len + 1);
        if (g_wide_mode == w_top && b < order.size()) return 1000 + one(b, len + 1);
        return order[k].mixin;
    }
    int set(size_t b, size_t len) { int r = 0; for (size_t k = end_of(b); k-- > b;) r = one(k, len); return r; }
};
template <int I> void wide_make(world& w, bool impls, int bid, int prio) {
    w.data.emplace_back(allocator(&w.ires));
    static const std::string n = "many" + std::to_string(I);
    util::mixin_info_data_builder<many<I>> b(w.data.back(), std::string_view(n));
    g_many[I] = &w.data.back().info;
    if (impls) {
        b.template implements_by<wide_uni_msg>([](many<I>* m, arg a) { return wide_handle<wide_uni_msg>(m, std::move(a)); }, util::builder_perks{bid, prio});
        b.template implements_by<wide_multi_msg>([](many<I>* m, arg a) { return wide_handle<wide_multi_msg>(m, std::move(a)); }, util::builder_perks{bid, prio});
    }
    w.d->register_mixin(w.data.back().info);
}
using wide_maker = void (*)(world&, bool, int, int);
template <int... I> const wide_maker* wide_makers(std::integer_sequence<int, I...>) { static const wide_maker m[] = {wide_make<I>...}; return m; }
void many_implementers(int max) {
    int n = wide::scale(max);
    static const char* bids[] = {"equal", "three", "all different", "two halves", "one below"};
    static const char* prios[] = {"equal", "alternating", "all different"};
    int bk = mc::choose(5), pk = mc::choose(3), rest = mc::choose(2), how = mc::choose(wide::arrangements), mode = mc::choose(4);
    if (mc::pruned()) return;
    MC_LOG(n << " implementers, bids: " << bids[bk] << ", priorities: " << prios[pk] << (rest ? ", every second mixin doesn't implement" : "") << ", arrangement " << how << ", mode " << mode);
    world w; w.reg<wide_uni_msg>(); w.reg<wide_multi_msg>();
    auto mk = wide_makers(std::make_integer_sequence<int, 66>());
    auto bid = [&](int i) { return bk == 0 ? 0 : bk == 1 ? i % 3 : bk == 2 ? i * 5 % 67 : bk == 3 ? i >= n / 2 : i ? 0 : -1; };
    auto prio = [&](int i) { return pk == 0 ? 0 : pk == 1 ? i % 2 : -i; };
    auto in = [&](int i) { return !rest || i % 2 == 0; };
    for (int i = 0; i < n; ++i) mk[i](w, in(i), bid(i), prio(i));
    infos v; std::vector<impl> order;
    for (int i : wide::arrange(n, how)) { if (in(i)) order.push_back({i, int(v.size()), bid(i), prio(i)}); v.push_back(g_many[i]); }
    std::sort(order.begin(), order.end(), [](const impl& a, const impl& b) { return a.bid != b.bid ? a.bid > b.bid : a.prio != b.prio ? a.prio < b.prio : a.idx > b.idx; });
    obj_t o(w.d->get_type(v), allocator(&w.ores));
    g_obj = &o;
    for (int multi = 0; multi < 2; ++multi) {
        // passing on from every receiver of a multicast multiplies the calls
        if (multi && mode != w_plain && n > 9) g_wide_mode = w_plain; else g_wide_mode = mode;
        wide_model m; m.order = order;
        int exp = multi ? m.set(0, 1) : m.one(0, 1);
        g_wide.clear();
        int got = multi ? wide_multi_msg::call(o, arg("x")) : wide_uni_msg::call(o, arg("x"));
        MC_EQ(got, exp, (multi ? "multicast" : "unicast") << ": result");
        MC_CHECK(g_wide == m.trace, (multi ? "multicast" : "unicast") << ": " << g_wide.size() << " calls, expected " << m.trace.size() << " in the order of the bids and priorities");
    }
}
}

// ---------------------------------------------------------------- implementers which change their own object while they handle a message
namespace {
struct chg_world {
    world_guard wg;
    std::deque<probe> ps; // a b c implement the messages, x doesn't
    std::unique_ptr<domain> d;
    std::unique_ptr<obj_t> o, other;
    std::vector<int> cur, out; // mixins of o and of other
    std::vector<int> running; // the receivers of the multicast in progress which haven't been called
    bool multi = false;
};
chg_world* g_chg;
int chg_call(chg_world& w, obj_t& o, std::vector<int> cur, int depth) {
    std::vector<int> impls; for (int i : cur) if (i < 3) impls.push_back(i);
    int r = 0; std::string oc;
    if (w.multi) {
        w.running = impls;
        oc = outcome_of([&] { r = chg_multi_msg::call(o, depth); });
        MC_EQ(oc, std::string(impls.empty() ? "feature_error" : ""), "outcome of a message");
        if (!oc.empty()) return 1;
        MC_CHECK(w.running.empty(), "not all have got the message");
    }
    else {
        w.running = impls.empty() ? std::vector<int>{-1} : std::vector<int>{impls.back()};
        oc = outcome_of([&] { r = chg_uni_msg::call(o, depth); });
        MC_EQ(oc, std::string(), "outcome of a message");
        MC_CHECK(w.running.empty(), "the message isn't received");
    }
    return r;
}
int g_chg_result;
int chg_receive(int who, const void* self, int depth) {
    auto& w = *g_chg;
    MC_CHECK(!w.running.empty() && w.running.front() == who, "mixin " << who << " gets a message instead of " << (w.running.empty() ? -2 : w.running.front()));
    w.running.erase(w.running.begin());
    if (who >= 0) { MC_CHECK(probe::alive(&w.ps[size_t(who)].info, self, "message").val >= 100 && w.o->get(w.ps[size_t(who)].info) == self, "the receiver isn't the mixin of the object"); }
    if (!w.running.empty() || !depth) return g_chg_result = 10 + who; // others are yet to get the message: the object isn't to be changed
    static const char* names[] = {"nothing", "remove itself", "remove another", "add x", "clear", "reset to x", "move out", "destroy it", "move over it", "rotate"};
    int op = mc::choose(10), gc = w.multi ? 0 : mc::choose(2); // (the implementers of a multicast are those of the type, which has to stay)
    if (mc::pruned()) return g_chg_result = 0;
    MC_STEP("  mixin " << who << ": " << names[op] << (gc ? ", collect types" : ""));
    auto mi = [&](int i) -> mixin_info& { return w.ps[size_t(i)].info; };
    auto set = [&](std::vector<int> l) { infos v; for (int i : l) v.push_back(&mi(i)); auto& t = w.d->get_type(v); w.o->reset_type(t); w.cur = l; };
    auto l = w.cur; bool again = true;
    switch (op) {
    case 1: if (who >= 0) { l.erase(std::find(l.begin(), l.end(), who)); set(l); } break;
    case 2: for (size_t i = 0; i < l.size(); ++i) if (l[i] != who) { l.erase(l.begin() + long(i)); set(l); break; } break;
    case 3: if (std::find(l.begin(), l.end(), 3) == l.end()) { l.push_back(3); set(l); } break;
    case 4: w.o->clear(); w.cur.clear(); break;
    case 5: set({3}); break;
    case 6: w.other = std::make_unique<obj_t>(std::move(*w.o)); w.out = w.cur; w.cur.clear(); break;
    case 7: w.o.reset(); w.cur.clear(); again = false; break;
    case 8: if (w.other) { *w.o = std::move(*w.other); w.cur = w.out; w.other.reset(); } break;
    case 9: if (l.size() > 1) { std::rotate(l.begin(), l.begin() + 1, l.end()); set(l); } break;
    }
    if (gc) w.d->garbage_collect_types();
    int r = 500 + who;
    if (again) r = 1000 + chg_call(w, *w.o, w.cur, depth - 1);
    return g_chg_result = r;
}
template <int I> int chg_fn(const void* self, int depth) { return chg_receive(I, self, depth); }
}
static int chg_default(obj_t& o, int depth) { MC_CHECK(&o == g_chg->o.get(), "object given to the default implementation"); return chg_receive(-1, nullptr, depth); }
namespace {
void changing_objects(int depth) {
    chg_world w; g_chg = &w;
    static const std::vector<std::vector<int>> L = {{0}, {0, 1}, {1, 0}, {0, 1, 2}, {3, 0, 1}, {0, 3}, {}};
    auto start = L[size_t(mc::choose(int(L.size())))]; int ext = mc::choose(3); w.multi = mc::flip();
    if (mc::pruned()) return;
    

    w.ps.emplace_back("a"); w.ps.emplace_back("b", 24, 16); w.ps.emplace_back("c", 3, 1); w.ps.emplace_back("x", 40, 8);
    dnmx_feature_payload pl[] = {reinterpret_cast<dnmx_feature_payload>(chg_fn<0>), reinterpret_cast<dnmx_feature_payload>(chg_fn<1>), reinterpret_cast<dnmx_feature_payload>(chg_fn<2>)};
    w.d = std::make_unique<domain>("d");
    auto& fu = const_cast<feature_info&>(static_cast<const feature_info&>(chg_uni_msg::get_info_safe())); auto& fmu = const_cast<feature_info&>(static_cast<const feature_info&>(chg_multi_msg::get_info_safe()));
    fu.id = fmu.id = invalid_feature_id; // of the domain of the previous execution
    w.d->register_feature(fu); w.d->register_feature(fmu);
    for (size_t i = 0; i < 4; ++i) { if (i < 3) w.ps[i].feature(fu, pl[i]).feature(fmu, pl[i]); if (ext == 1 || (ext == 2 && i % 2)) w.ps[i].external(); w.d->register_mixin(w.ps[i].info); }
    infos v; for (int i : start) v.push_back(&w.ps[size_t(i)].info);
    w.o = std::make_unique<obj_t>(w.d->get_type(v)); w.cur = start;
    MC_STEP((w.multi ? "multicast" : "unicast") << " to an object of type " << names(v) << ", placement " << ext);
    int r = chg_call(w, *w.o, start, depth);
    if (mc::pruned()) { w.o.reset(); w.other.reset(); return; }
    if (!(w.multi && std::none_of(start.begin(), start.end(), [](int i) { return i < 3; }))) MC_EQ(r, g_chg_result, "result");
    mc::outcome(MC_STR(r));
    for (auto x : {std::make_pair(w.o.get(), &w.cur), std::make_pair(w.other.get(), &w.out)}) if (x.first) {
        infos e; for (int i : *x.second) e.push_back(&w.ps[size_t(i)].info);
        MC_CHECK(type_mixins(x.first->get_type()) == e, "mixins after the message");
        for (int i : *x.second) { auto m = x.first->get(w.ps[size_t(i)].info); probe::alive(&w.ps[size_t(i)].info, m, "after the message"); }
    }
    w.o.reset(); w.other.reset(); MC_EQ(T().live.size(), size_t(0), "mixins left");
    fu.id = fmu.id = invalid_feature_id;
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("two-mixins/all-modes", [] { run(2, 2, 2, {m_plain, m_next, m_next_forced, m_bidders, m_top, m_throw}); });
        mc::section("three-mixins/perks", [] { run(3, 2, 2, {m_plain, m_next}); });
        mc::section("three-mixins/all-modes", [] { run(3, 2, 1, {m_plain, m_next, m_next_forced, m_bidders, m_top, m_throw}); });
        mc::section("three-mixins/three-bids", [] { run(3, 3, 1, {m_next, m_bidders, m_top}); });
        mc::section("four-mixins/order", [] { run(4, 2, pick(1, 2), {m_plain}); });
        mc::section("objects-change", [] { changing_objects(pick(3, 4)); });
        mc::section("many-implementers", [] { many_implementers(pick(33, 65)); });
    });
}
