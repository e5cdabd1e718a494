// Common mutation rules of the core and of the compatibility layer: all small sets of rules, all requests, from all base types.
#include "kit.hpp"
#include "wide.hpp"
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/v1compat/common_mutation_rules.hpp>
#include <dynamix/v1compat/domain.hpp>
#include <dynamix/v1compat/object.hpp>
#include <dynamix/v1compat/mutate.hpp>
#include <array>
#include <dynamix/define_mixin.hpp>
#include <algorithm>
using namespace kit;
namespace v1 = dynamix::v1compat;
using namespace dynamix::util::builder_literals;

struct A { int v; }; struct B { int v; }; struct C { int v; }; struct D { int v; };
namespace {
util::mixin_info_data* g_data[4];
}
const mixin_info& _dynamix_get_mixin_info(const A*) { return g_data[0]->info; }
const mixin_info& _dynamix_get_mixin_info(const B*) { return g_data[1]->info; }
const mixin_info& _dynamix_get_mixin_info(const C*) { return g_data[2]->info; }
const mixin_info& _dynamix_get_mixin_info(const D*) { return g_data[3]->info; }

namespace {
using list = std::vector<int>;
bool has(const list& l, int m) { return std::find(l.begin(), l.end(), m) != l.end(); }
void rem(list& l, int m) { l.erase(std::remove(l.begin(), l.end(), m), l.end()); }
void add(list& l, int m) { if (!has(l, m)) l.push_back(m); }
std::string show(const list& l) { std::string s; for (int i : l) s += char('a' + i); return "[" + s + "]"; }

// all lists without repetition of the first n mixins
std::vector<list> all_lists(int n) {
    std::vector<list> r{{}};
    for (size_t k = 0; k < r.size(); ++k) for (int m = 0; m < n; ++m) if (!has(r[k], m)) { auto l = r[k]; l.push_back(m); r.push_back(l); }
    return r;
}
// a rule of the model: what the documentation says it does with a list
struct mrule { std::function<bool(list&)> apply; std::function<std::string(const list&)> promise; std::string text; };

// the documented procedure: dependencies are removed, then the rules are applied in order until nothing changes
bool settle(const std::vector<mrule>& rs, bool canonical, const bool* dep, list& l) {
    size_t n = rs.size() + canonical;
    l.erase(std::remove_if(l.begin(), l.end(), [&](int m) { return dep[m]; }), l.end());
    list last = l;
    for (size_t round = 0;; ++round) {
        for (auto& r : rs) if (!r.apply(l)) return false;
        if (canonical) std::sort(l.begin(), l.end());
        if (l == last || (round == 0 && n == 0)) return true;
        if (round == 5 || (round > 0 && round == n)) return false;
        last = l;
    }
}
list of(const type& t) { list r; for (auto i : t.mixins) for (int k = 0; k < 4; ++k) if (g_data[k] && i == &g_data[k]->info) r.push_back(k); MC_EQ(r.size(), size_t(t.num_mixins()), "known mixins"); return r; }
std::vector<const mixin_info*> infos_of(const list& l) { std::vector<const mixin_info*> v; for (int i : l) v.push_back(&g_data[i]->info); return v; }

// one request, by list (entry 0) or by mutating the type `base` (or an object of it)
void request(domain& d, const std::vector<mrule>& rs, bool canonical, const bool* dep, const list& l, const char* how, const std::function<const type&()>& f) {
    mc::step_();
    list want = l; bool ok = settle(rs, canonical, dep, want);
    const type* t = nullptr;
    auto oc = outcome_of([&] { t = &f(); });
    auto desc = [&] { std::string s; for (auto& r : rs) s += r.text + "; "; return MC_STR(s << "request " << show(l) << how); };
    if (mc::recording) mc::log_(desc());
    MC_EQ(oc.empty(), ok, desc() << ": outcome (" << oc << ")");
    mc::outcome(MC_STR(rs.size() << show(l) << (ok ? show(want) : "error")));
    if (!ok) return;
    auto got = of(*t);
    MC_CHECK(got == want, desc() << " gives " << show(got) << ", expected " << show(want));
    // rules which contradict each other may settle nevertheless (what one does another undoes): nobody can keep all promises then
    for (auto& r : rs) { auto g = got; if (!r.apply(g) || g != got) return; }
    for (auto& r : rs) { auto p = r.promise(got); MC_CHECK(p.empty(), desc() << " gives " << show(got) << ": " << p); }
}
void request_all_ways(domain& d, const std::vector<mrule>& rs, bool canonical, const bool* dep, const list& l, bool more) {
    request(d, rs, canonical, dep, l, "", [&]() -> const type& { return d.get_type(infos_of(l)); });
    if (!more) return;
    request(d, rs, canonical, dep, l, " by mutation", [&]() -> const type& { type_mutation m(d); auto v = infos_of(l); m.mixins.assign(v.begin(), v.end()); return d.get_type(std::move(m)); });
}
// from all base types: add and remove a mixin of objects
void mutate_all(domain& d, const std::vector<mrule>& rs, bool canonical, const bool* dep, const std::vector<list>& bases, int n) {
    for (auto& base : bases) for (int m = 0; m < n; ++m) {
        list b = base;
        if (!settle(rs, canonical, dep, b)) continue;
        object o(d.get_type(infos_of(base)));
        b = of(o.get_type());
        list l = b; bool adds = !has(l, m);
        if (adds) l.push_back(m); else rem(l, m);
        const type* before = &o.get_type();
        list want = l; bool ok = settle(rs, canonical, dep, want);
        request(d, rs, canonical, dep, l, adds ? " by adding to an object" : " by removing from an object", [&]() -> const type& {
            if (adds) v1::mutate(o).add(g_data[m]->info); else v1::mutate(o).remove(g_data[m]->info);
            return o.get_type();
        });
        if (!ok) MC_CHECK(&o.get_type() == before, "the type of an object after a failed mutation");
    }
}
// ---------------------------------------------------------------- the core: attaches_to, also_adds
template <typename M> constexpr int idx = std::is_same_v<M, A> ? 0 : std::is_same_v<M, B> ? 1 : std::is_same_v<M, C> ? 2 : 3;
struct core_rule { int self, other; bool attaches; int prio; std::string name; };
mrule model_of(const core_rule& r) {
    int p = r.attaches ? r.other : r.self, d = r.attaches ? r.self : r.other;
    return {[=](list& l) { if (has(l, p)) add(l, d); return true; },
            [=](const list& l) { return has(l, p) && !has(l, d) ? std::string(1, char('a' + d)) + " is missing" : std::string(); },
            MC_STR(char('a' + r.self) << (r.attaches ? " attaches to " : " also adds ") << char('a' + r.other) << " (" << r.prio << ")")};
}
template <typename Self, typename Other> void add_core(util::mixin_info_data_builder<Self>& b, bool attaches, int prio) {
    if (attaches) b.on_mutation(attaches_to<Other>{}, order_priority(prio)); else b.on_mutation(also_adds<Other>{}, order_priority(prio));
}
template <typename Self> void make_core(util::mixin_info_data& data, std::vector<core_rule>& rs, bool dep0) {
    util::mixin_info_data_builder<Self> b(data, std::string_view(idx<Self> == 0 ? "a" : idx<Self> == 1 ? "b" : idx<Self> == 2 ? "c" : "d"));
    if (dep0) b.dependency();
    int k = 0;
    for (auto& r : rs) if (r.self == idx<Self>) {
        r.name = std::string(1, char('a' + r.self)) + (r.attaches ? " attaches_to<" : " also_adds<") + std::to_string(k++) + ">";
        switch (r.other) { case 0: add_core<Self, A>(b, r.attaches, r.prio); break; case 1: add_core<Self, B>(b, r.attaches, r.prio); break; case 2: add_core<Self, C>(b, r.attaches, r.prio); break; default: add_core<Self, D>(b, r.attaches, r.prio); }
    }
}
void run_core(int n, std::vector<core_rule> rs, bool canonical, unsigned deps, bool mutations) {
    world_guard wg;
    std::deque<util::mixin_info_data> data(4);
    for (int i = 0; i < 4; ++i) g_data[i] = i < n ? &data[size_t(i)] : nullptr;
    make_core<A>(data[0], rs, deps & 1); make_core<B>(data[1], rs, deps & 2); if (n > 2) make_core<C>(data[2], rs, deps & 4); if (n > 3) make_core<D>(data[3], rs, deps & 8);
    bool dep[4] = {};
    for (int i = 0; i < n; ++i) dep[i] = deps >> i & 1;
    for (auto& r : rs) if (r.attaches) dep[r.self] = true;
    for (int i = 0; i < n; ++i) MC_EQ(data[size_t(i)].info.dependency, dep[i], "only mixins which attach to others become dependencies");
    std::sort(rs.begin(), rs.end(), [](auto& x, auto& y) { return x.prio != y.prio ? x.prio < y.prio : x.name < y.name; });
    std::vector<mrule> ms; for (auto& r : rs) ms.push_back(model_of(r));
    domain_settings s{}; s.canonicalize_types = canonical;
    {
        domain d("d", s);
        for (int i = 0; i < n; ++i) data[size_t(i)].register_in(d);
        auto lists = all_lists(n);
        for (auto& l : lists) {
            request_all_ways(d, ms, canonical, dep, l, mutations);
            // a dependency is only where something brings it
            list want = l;
            if (settle(ms, canonical, dep, want)) {
                list base; for (int m : l) if (!dep[m]) base.push_back(m);
                for (bool more = true; more;) { more = false; for (auto& r : rs) { int p = r.attaches ? r.other : r.self, q = r.attaches ? r.self : r.other; if (has(base, p) && !has(base, q)) { base.push_back(q); more = true; } } }
                auto got = of(d.get_type(infos_of(l)));
                auto g = got, b = base; std::sort(g.begin(), g.end()); std::sort(b.begin(), b.end());
                MC_CHECK(g == b, "mixins of the type for " << show(l) << ": " << show(got) << ", and what belongs together: " << show(base));
            }
        }
        if (mutations) mutate_all(d, ms, canonical, dep, lists, n);
    }
    for (auto& g : g_data) g = nullptr;
}
void core_subsets(int n, int max_rules) { // every combination of attaching and adding
    std::vector<core_rule> rs;
    bool canonical = mc::flip();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) {
        if (int(rs.size()) >= max_rules) continue;
        int k = mc::choose(4);
        if (k & 1) rs.push_back({i, j, true, 0, ""});
        if (k & 2) rs.push_back({i, j, false, 0, ""});
    }
    if (mc::pruned()) return;
    run_core(n, rs, canonical, 0, rs.size() <= 3);
}
void core_lists(int n, int len, bool self_too, int ndeps) { // sequences of rules with priorities, other dependencies
    std::vector<core_rule> rs;
    int canonical = mc::choose(2); unsigned deps = unsigned(mc::choose(ndeps));
    for (int k = 0; k < len; ++k) {
        int i = mc::choose(n), j = mc::choose(self_too ? n : n - 1); if (!self_too && j >= i) ++j;
        bool at = mc::flip();
        rs.push_back({i, j, at, mc::choose(2) ? -1 : 1, ""});
    }
    if (mc::pruned()) return;
    run_core(n, rs, canonical, deps, len <= 2 && n == 3);
}
// ---------------------------------------------------------------- the compatibility layer
alignas(64) char g_arena[16384]; size_t g_used;
template <typename T> struct placed { // rules live at increasing addresses (rules of equal priority and name are applied in this order)
    static std::shared_ptr<T> make() {
        g_used = (g_used + 63) / 64 * 64;
        auto p = new (g_arena + g_used) T; g_used += sizeof(T);
        return std::shared_ptr<T>(p, [](T* x) { x->~T(); });
    }
};
struct v1rule { std::shared_ptr<v1::mutation_rule> r; mrule m; };
template <int I> using mx = std::tuple_element_t<I, std::tuple<A, B, C, D>>;
template <typename F> auto with(int i, F&& f) { switch (i) { case 0: return f((A*)nullptr); case 1: return f((B*)nullptr); case 2: return f((C*)nullptr); default: return f((D*)nullptr); } }
std::string nm(int i) { return std::string(1, char('a' + i)); }
v1rule mandatory(int a) {
    return {with(a, [](auto* p) -> std::shared_ptr<v1::mutation_rule> { return placed<v1::mandatory_mixin<std::remove_pointer_t<decltype(p)>>>::make(); }),
        {[=](list& l) { add(l, a); return true; }, [=](const list& l) { return has(l, a) ? "" : nm(a) + " is mandatory"; }, "mandatory " + nm(a)}};
}
v1rule deprecated(int a) {
    return {with(a, [](auto* p) -> std::shared_ptr<v1::mutation_rule> { return placed<v1::deprecated_mixin<std::remove_pointer_t<decltype(p)>>>::make(); }),
        {[=](list& l) { rem(l, a); return true; }, [=](const list& l) { return has(l, a) ? nm(a) + " is deprecated" : ""; }, "deprecated " + nm(a)}};
}
v1rule substitute(int a, int b) {
    return {with(a, [=](auto* p) { return with(b, [](auto* q) -> std::shared_ptr<v1::mutation_rule> { return placed<v1::substitute_mixin<std::remove_pointer_t<decltype(p)>, std::remove_pointer_t<decltype(q)>>>::make(); }); }),
        {[=](list& l) { if (has(l, a)) { rem(l, a); add(l, b); } return true; }, [=](const list& l) { return a != b && has(l, a) ? nm(a) + " is substituted" : std::count(l.begin(), l.end(), b) > 1 ? "twice" : ""; }, "substitute " + nm(a) + nm(b)}};
}
v1rule exclusive(const list& x) {
    auto r = placed<v1::mutually_exclusive_mixins>::make();
    for (int m : x) with(m, [&](auto* p) { r->template add<std::remove_pointer_t<decltype(p)>>(); });
    return {r, {[=](list& l) { int last = -1; for (int m : l) if (has(x, m)) last = m; list n; for (int m : l) if (!has(x, m) || m == last) n.push_back(m); l = n; return true; },
        [=](const list& l) { int c = 0; for (int m : l) c += has(x, m); return c > 1 ? "mutually exclusive" : ""; }, "exclusive " + show(x)}};
}
template <bool Dep> v1rule dependent(int a, const list& x, const bool* isdep) {
    using R = std::conditional_t<Dep, v1::dependent_mixins_dep, v1::dependent_mixins_oneshot>;
    auto r = placed<R>::make();
    with(a, [&](auto* p) { r->template set_master<std::remove_pointer_t<decltype(p)>>(); });
    for (int m : x) with(m, [&](auto* p) { if (m & 1) r->add(g::get_mixin_info<std::remove_pointer_t<decltype(p)>>()); else r->template add<std::remove_pointer_t<decltype(p)>>(); });
    bool d[4]; for (int i = 0; i < 4; ++i) d[i] = isdep[i];
    std::array<bool, 4> dd{d[0], d[1], d[2], d[3]};
    return {r, {[=](list& l) { if (has(l, a)) for (int m : x) { if (Dep && !dd[size_t(m)]) return false; add(l, m); } return true; },
        [=](const list& l) { if (has(l, a)) for (int m : x) if (!has(l, m)) return nm(m) + " depends on " + nm(a); return std::string(); }, (Dep ? "dependent " : "dependent oneshot ") + nm(a) + show(x)}};
}
// the k-th rule over n mixins
int num_v1(int n) { return n + n + n * (n - 1) + (n == 3 ? 4 : 10) + 2 * n * (n == 3 ? 3 : 6); }
v1rule make_v1(int n, int k, const bool* dep) {
    if (k < n) return mandatory(k);
    if ((k -= n) < n) return deprecated(k);
    if ((k -= n) < n * (n - 1)) { int a = k / (n - 1), b = k % (n - 1); if (b >= a) ++b; return substitute(a, b); }
    k -= n * (n - 1);
    std::vector<list> ex = n == 3 ? std::vector<list>{{0, 1}, {2, 0}, {1, 2}, {0, 1, 2}} : std::vector<list>{{0, 1}, {2, 0}, {0, 3}, {1, 2}, {3, 1}, {2, 3}, {0, 1, 2}, {3, 1, 0}, {0, 2, 3}, {1, 2, 3}};
    if (k < int(ex.size())) return exclusive(ex[size_t(k)]);
    k -= int(ex.size());
    int per = n == 3 ? 3 : 6;
    bool isdep = k >= n * per; if (isdep) k -= n * per;
    int a = k / per, w = k % per;
    list o; for (int m = 0; m < n; ++m) if (m != a) o.push_back(m);
    list x = n == 3 ? (w == 0 ? list{o[0]} : w == 1 ? list{o[1]} : list{o[1], o[0]}) : (w < 3 ? list{o[size_t(w)]} : w == 3 ? list{o[0], o[1]} : w == 4 ? list{o[2], o[0]} : list{o[1], o[2]});
    return isdep ? dependent<true>(a, x, dep) : dependent<false>(a, x, dep);
}
void run_v1(int n, const std::vector<int>& ks, unsigned deps, bool more) {
    world_guard wg;
    g_used = 0;
    auto& d = v1::domain::instance();
    {
        std::deque<util::mixin_info_data> data(4);
        bool dep[4] = {};
        for (int i = 0; i < 4; ++i) { g_data[i] = i < n ? &data[size_t(i)] : nullptr; dep[i] = deps >> i & 1; }
        auto make = [&](auto* p) { using M = std::remove_pointer_t<decltype(p)>; util::mixin_info_data_builder<M> b(data[size_t(idx<M>)], std::string_view(idx<M> == 0 ? "a" : idx<M> == 1 ? "b" : idx<M> == 2 ? "c" : "d")); b.dependency(dep[idx<M>]); };
        for (int i = 0; i < n; ++i) { with(i, make); data[size_t(i)].register_in(d); }
        std::vector<v1rule> rs; std::vector<mrule> ms; std::vector<v1::mutation_rule_id> ids;
        for (int k : ks) rs.push_back(make_v1(n, k, dep));
        for (auto& r : rs) { ids.push_back(v1::add_mutation_rule(r.r)); ms.push_back(r.m); }
        auto lists = all_lists(n);
        for (auto& l : lists) request_all_ways(d, ms, true, dep, l, more);
        if (more) mutate_all(d, ms, true, dep, lists, n);
        for (size_t i = 0; i < ids.size(); ++i) { auto r = v1::remove_mutation_rule(ids[i]); MC_CHECK(r == rs[i].r, "the removed rule"); }
        // without the rules everything is as it was
        std::vector<mrule> none;
        for (auto& l : lists) if (l.size() <= 2) request_all_ways(d, none, true, dep, l, false);
        for (int i = 0; i < n; ++i) data[size_t(i)].unregister_from(d);
        d.garbage_collect_types();
        for (auto& g : g_data) g = nullptr;
    }
}
void v1_rules(int n, int len, bool with_deps) {
    std::vector<int> ks; for (int k = 0; k < len; ++k) ks.push_back(mc::choose(num_v1(n)));
    unsigned deps = with_deps ? unsigned(mc::choose(1 << n)) : 0;
    if (mc::pruned()) return;
    run_v1(n, ks, deps, len <= 2 && n == 3);
}
// rules over many mixins: the types are canonical, so they are ordered by name
void v1_many(int max) {
    int n = wide::scale(max, 2), kind = mc::choose(3), cover = mc::choose(4), how = mc::choose(wide::arrangements), start = mc::choose(4), style = mc::choose(wide::name_styles);
    int at = wide::position(n); // the master of dependent mixins; the only one requested with `start` 2
    if (mc::pruned()) return;
    world_guard wg;
    g_used = 0;
    auto& d = v1::domain::instance();
    {
        std::deque<probe> ps;
        util::mixin_info_data data; { util::mixin_info_data_builder<A> b(data, std::string_view("master")); }
        g_data[0] = &data;
        std::vector<const mixin_info*> all;
        for (int i = 0; i < n; ++i) {
            if (i == at && kind) { data.register_in(d); all.push_back(&data.info); continue; }
            auto& p = ps.emplace_back(wide::name(i, style), 1, 1);
            // dependent mixins must be dependencies, other mixins may be
            if (kind == 2) p.dependency();
            d.register_mixin(p.info); all.push_back(&p.info);
        }
        auto covered = [&](int i) { return (kind == 0 || i != at) && (cover == 0 || (cover == 1 && i % 2 == 0) || (cover == 2 && i >= n / 2) || (cover == 3 && (i == at || i == (at + n / 2) % n || i == n - 1))); };
        auto requested = [&](int i) { return start == 0 || (start == 1 && i % 2) || (start == 2 && i == at) || (start == 3 && i <= at); };
        auto order = wide::arrange(n, how);
        std::vector<int> l, x; for (int i : order) { if (requested(i)) l.push_back(i); } for (int i : wide::arrange(n, (how + 3) % wide::arrangements)) if (covered(i)) x.push_back(i);
        MC_LOG(n << " mixins, " << (kind == 0 ? "mutually exclusive: " : kind == 1 ? "dependent (once): " : "dependent: ") << x.size() << " of them, requested: " << l.size() << ", arrangement " << how << ", position " << at << ", " << wide::style_name(style));
        std::set<int> xs(x.begin(), x.end());
        auto apply = [&](std::vector<int>& v) {
            if (kind == 0) {
                int last = -1; for (int i : v) if (xs.count(i)) last = i;
                v.erase(std::remove_if(v.begin(), v.end(), [&](int i) { return xs.count(i) && i != last; }), v.end());
            } else if (std::find(v.begin(), v.end(), at) != v.end()) {
                std::set<int> vs(v.begin(), v.end());
                for (int i : x) if (!vs.count(i)) v.push_back(i);
            }
        };
        std::shared_ptr<v1::mutation_rule> rule;
        auto fill = [&](auto& r) { for (int i : x) r->add(*all[size_t(i)]); };
        if (kind == 0) { auto r = std::make_shared<v1::mutually_exclusive_mixins>(); fill(r); rule = r; }
        if (kind == 1) { auto r = std::make_shared<v1::dependent_mixins_oneshot>(); fill(r); r->set_master<A>(); rule = r; }
        if (kind == 2) { auto r = std::make_shared<v1::dependent_mixins_dep>(); fill(r); r->set_master<A>(); rule = r; }
        auto cmp = [&](const infos& got, const std::vector<int>& want, const char* what) {
            infos w; for (int i : want) w.push_back(all[size_t(i)]);
            MC_CHECK(got == w, what << ": " << got.size() << " mixins, expected " << w.size());
        };
        auto sort = [&](std::vector<int>& v) { std::sort(v.begin(), v.end(), [&](int a, int b) { return all[size_t(a)]->name.to_std() < all[size_t(b)]->name.to_std(); }); };
        {   // the rule itself, on a mutation
            type_mutation m(d); for (int i : l) m.mixins.push_back(all[size_t(i)]);
            rule->apply_to(m);
            auto w = l; apply(w);
            cmp(infos(m.mixins.begin(), m.mixins.end()), w, "a mutation after the rule");
        }
        auto id = v1::add_mutation_rule(rule);
        for (int round = 0; round < 2; ++round) {
            auto w = l;
            if (kind == 2) w.erase(std::remove_if(w.begin(), w.end(), [&](int i) { return i != at; }), w.end()); // dependencies aren't there by themselves
            apply(w); sort(w);
            if (kind == 0) { // the rules see the mutation again in the order of the names: nothing changes by that, one is left
                std::set<int> ws(w.begin(), w.end()); int c = 0; for (int i : x) c += int(ws.count(i));
                MC_CHECK(c <= 1, "reference");
            }
            infos r; for (int i : l) r.push_back(all[size_t(i)]);
            cmp(type_mixins(d.get_type(r)), w, round ? "the type for the same request again" : "the type");
        }
        MC_CHECK(v1::remove_mutation_rule(id) == rule, "the removed rule");
        {
            auto w = l; sort(w);
            if (kind == 2) w.erase(std::remove_if(w.begin(), w.end(), [&](int i) { return i != at; }), w.end());
            infos r; for (int i : l) r.push_back(all[size_t(i)]);
            cmp(type_mixins(d.get_type(r)), w, "the type without the rule");
        }
        for (auto i : all) d.unregister_mixin(const_cast<mixin_info&>(*i));
        d.garbage_collect_types();
        g_data[0] = nullptr;
    }
}
}
int main(int argc, char** argv) {
    v1::domain::instance(); // it outlives the executions: its memory comes from the ordinary resource
    mc::section("core/all-subsets-of-pairs", [] { core_subsets(3, 20); });
    mc::section("core/sequences-with-priorities", [] { core_lists(3, 2, true, 8); });
    mc::section("core/four-mixins", [] { core_lists(4, mc::pick(2, 3), false, 1); });
    mc::section("core/three-rules", [] { core_lists(3, 3, mc::thorough, mc::pick(2, 8)); });
    mc::section("v1/single-rules", [] { v1_rules(4, 1, true); });
    mc::section("v1/pairs-of-rules-3", [] { v1_rules(3, 2, true); });
    mc::section("v1/pairs-of-rules-4", [] { v1_rules(4, 2, mc::thorough); });
    mc::section("v1/triples-of-rules", [] { v1_rules(3, 3, mc::thorough); });
    mc::section("v1/many-mixins", [] { v1_many(mc::pick(33, 129)); });
    return mc::main_(argc, argv, [] { setup_default(); });
}
