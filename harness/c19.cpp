// Type queries: everything a type answers, for all mixins and features there are, in all histories of registrations.
#include "kit.hpp"
#include "wide.hpp"
#include <dnmx/type.h>
#include <dnmx/object.h>
#include <algorithm>
using namespace kit;

namespace {
using list = std::vector<int>;
struct world;
world* g_w;
enum { NM = 5, NF = 4 };
// what the templated queries are bound to
template <int I> struct M {};
template <int I> const mixin_info& _dynamix_get_mixin_info(const M<I>*);
template <int K> struct F { inline static feature_info info; };
template <int K> struct TC { static const type_class m_dynamix_type_class; };
struct farr { feature_info& operator[](int k) const { return k == 0 ? F<0>::info : k == 1 ? F<1>::info : k == 2 ? F<2>::info : F<3>::info; } };
// mixins: 0: f0; 1: f0, f1; 2: none; 3: f2 (registered late), 4: f1, has the name of mixin 1
// features: f3 has a default payload and no implementers; f1 has one as well
struct world {
    world_guard wg;
    res dres{"domain"};
    std::deque<probe> ps;
    farr f;
    type_class tcs[4];
    std::unique_ptr<domain> d;
    struct held { const type* t; list l; };
    std::vector<held> types;
    bool reg[NM] = {}, freg[NF] = {};
    int nobj = 0;
    world() {
        g_w = this;
        domain_settings s{}; s.allow_duplicate_mixin_names = true;
        d = std::make_unique<domain>("d", s, 0, nullptr, allocator(&dres));
        for (int i = 0; i < NF; ++i) { f[i] = dnmx_make_feature_info(); static const char* n[] = {"f", "g", "", "d"}; f[i].name = dnmx_sv::from_std(n[i]); f[i].allow_clashes = true; }
        f[2].name = dnmx_sv::from_std("late");
        f[3].default_payload = f[1].default_payload = reinterpret_cast<dnmx_feature_payload>(this);
        ps.emplace_back("m", 4, 4).feature(f[0], nullptr);
        ps.emplace_back("n", 4, 4).feature(f[0], nullptr).feature(f[1], nullptr);
        ps.emplace_back("", 4, 4); // allowed in such a domain
        ps.emplace_back("late", 4, 4).feature(f[2], nullptr);
        ps.emplace_back("n", 4, 4).feature(f[1], nullptr);
        // type classes
        tcs[0] = TC<0>::m_dynamix_type_class; tcs[1] = TC<1>::m_dynamix_type_class; tcs[2] = TC<2>::m_dynamix_type_class; tcs[3] = TC<3>::m_dynamix_type_class;
        types.push_back({&d->get_empty_type(), {}});
    }
    ~world() { d.reset(); g_w = nullptr; }
    mixin_info& mi(int i) { return ps[size_t(i)].info; }
    std::string name(int i) { return std::string(mi(i).name.to_std()); }
    static bool in(const list& l, int m) { return std::find(l.begin(), l.end(), m) != l.end(); }
    bool provides(int m, int k) { for (auto& x : mi(m).features_span()) if (x.info == &f[k]) return true; return false; }
    template <int I> void typed_mixin(const held& h, object* o) {
        auto& t = *h.t; bool e = in(h.l, I);
        MC_EQ(t.has<M<I>>(), e, "has<mixin " << I << ">"); MC_EQ(t.lacks<M<I>>(), !e, "lacks<mixin " << I << ">");
        type_mutation mu(t);
        MC_EQ(mu.has<M<I>>(), e, "has<mixin " << I << "> of a mutation"); MC_EQ(mu.lacks<M<I>>(), !e, "lacks<mixin " << I << "> of a mutation");
        if (!o) return;
        auto& c = *static_cast<const object*>(o); void* at = e ? o->get_at(t.index_of(mi(I).id)) : nullptr;
        MC_EQ(o->has<M<I>>(), e, "has<mixin " << I << "> of an object"); MC_EQ(static_cast<void*>(o->get<M<I>>()), at, "get<mixin " << I << ">"); MC_EQ(static_cast<const void*>(c.get<M<I>>()), static_cast<const void*>(at), "const get<mixin " << I << ">");
    }
    template <int K> void typed_feature(const held& h) {
        auto& t = *h.t; bool e = false; for (int m : h.l) if (provides(m, K)) e = true;
        MC_EQ(t.implements_strong<F<K>>(), e, "implements_strong<feature " << K << ">"); MC_EQ(t.implements<F<K>>(), e || f[K].default_payload, "implements<feature " << K << ">");
        type_mutation mu(t);
        MC_EQ(mu.implements_strong<F<K>>(), e, "implements_strong<feature " << K << "> of a mutation"); MC_EQ(mu.implements<F<K>>(), e || f[K].default_payload, "implements<feature " << K << "> of a mutation");
    }
    void typed(const held& h) {
        std::unique_ptr<object> o; if (!h.l.empty()) o = std::make_unique<object>(*h.t);
        typed_mixin<0>(h, o.get()); typed_mixin<1>(h, o.get()); typed_mixin<2>(h, o.get()); typed_mixin<3>(h, o.get()); typed_mixin<4>(h, o.get());
        typed_feature<0>(h); typed_feature<1>(h); typed_feature<2>(h); typed_feature<3>(h);
        bool ex[4] = {in(h.l, 0), in(h.l, 0) || in(h.l, 1), true, h.l.size() == 2};
        auto& t = *h.t;
        MC_EQ(t.is_of<TC<0>>(), ex[0], "is_of<0>"); MC_EQ(t.is_of<TC<1>>(), ex[1], "is_of<1>"); MC_EQ(t.is_of<TC<2>>(), ex[2], "is_of<2>"); MC_EQ(t.is_of<TC<3>>(), ex[3], "is_of<3>");
        if (o) { MC_EQ(o->is_of<TC<0>>(), ex[0], "is_of<0> of an object"); MC_EQ(o->is_of<TC<1>>(), ex[1], "is_of<1> of an object"); MC_EQ(o->is_of<TC<2>>(), ex[2], "is_of<2> of an object"); MC_EQ(o->is_of<TC<3>>(), ex[3], "is_of<3> of an object"); }
    }
    void check() {
        for (auto& h : types) {
            auto& t = *h.t;
            MC_CHECK(&t.dom == d.get(), "domain of the type");
            MC_EQ(size_t(t.num_mixins()), h.l.size(), "number of mixins"); MC_EQ(size_t(dnmx_type_num_mixins(&t)), h.l.size(), "number of mixins");
            for (int i = 0; i < NM; ++i) {
                bool e = in(h.l, i); auto ix = e ? mixin_index_t(std::find(h.l.begin(), h.l.end(), i) - h.l.begin()) : invalid_mixin_index;
                MC_EQ(t.has(mi(i)), e, "has mixin " << i); MC_EQ(t.has(mi(i).id), e, "has id of mixin " << i); MC_EQ(t.lacks(mi(i)), !e, "lacks " << i); MC_EQ(t.lacks(mi(i).id), !e, "lacks id " << i);
                MC_EQ(dnmx_type_has(&t, &mi(i)), e, "C has " << i);
                MC_EQ(t.index_of(mi(i).id), ix, "index of mixin " << i); MC_EQ(dnmx_type_index_of(&t, &mi(i)), ix, "C index of mixin " << i);
                mixin_index_t nix = invalid_mixin_index;
                for (size_t k = 0; k < h.l.size(); ++k) if (name(h.l[k]) == name(i)) { nix = mixin_index_t(k); break; }
                MC_EQ(t.index_of(name(i)), nix, "index of name '" << name(i) << "'"); MC_EQ(dnmx_type_index_of_name(&t, mi(i).name), nix, "C index of name");
                MC_EQ(t.has(name(i)), nix != invalid_mixin_index, "has name"); MC_EQ(t.lacks(name(i)), nix == invalid_mixin_index, "lacks name"); MC_EQ(dnmx_type_has_by_name(&t, mi(i).name), nix != invalid_mixin_index, "C has name");
                if (e) MC_CHECK(t.mixins[ix] == &mi(i), "mixin at the index");
            }
            for (auto id : {invalid_mixin_id, mixin_id{77}, mixin_id{dnmx_invalid_id - 1}}) { MC_EQ(t.index_of(id), invalid_mixin_index, "index of id " << id.i); MC_CHECK(!t.has(id), "has id " << id.i); }
            for (std::string n : {"x", "mm", "N", "f"}) MC_CHECK(!t.has(n), "has name '" << n << "'");
            for (int k = 0; k < NF; ++k) {
                bool e = false; for (int m : h.l) if (provides(m, k)) e = true;
                std::string fn(f[k].name.to_std());
                MC_EQ(t.implements_strong(f[k]), e, "implements_strong " << fn); MC_EQ(t.implements_strong(f[k].id), e, "implements_strong by id " << fn); MC_EQ(t.implements_strong(fn), e, "implements_strong by name " << fn);
                MC_EQ(t.implements(f[k]), e || f[k].default_payload, "implements " << fn);
                MC_EQ(dnmx_type_implements_strong(&t, &f[k]), e, "C implements_strong " << fn); MC_EQ(dnmx_type_implements_strong_by_name(&t, f[k].name), e, "C implements_strong by name " << fn); MC_EQ(dnmx_type_implements(&t, &f[k]), e || f[k].default_payload, "C implements " << fn);
                MC_EQ(bool(t.ftable_at(f[k].id)), e, "ftable"); MC_EQ(!!dnmx_ftable_at(&t, f[k].id).begin, e, "C ftable");
                size_t n = 0; for (int m : h.l) if (provides(m, k)) ++n;
                MC_EQ(size_t(t.ftable_at(f[k].id).size()), n, "number of implementers of " << fn);
            }
            MC_CHECK(!t.implements_strong("") && !t.implements_strong("x"), "implements_strong of an unknown name");
            MC_CHECK(!t.implements_strong(invalid_feature_id) && !t.implements_strong(feature_id{99}), "implements_strong of an unknown id");
            bool ex[4] = {in(h.l, 0), in(h.l, 0) || in(h.l, 1), true, h.l.size() == 2};
            for (int k = 0; k < 4; ++k) { MC_EQ(t.is_of(tcs[k]), ex[k], "is_of " << k); MC_EQ(dnmx_type_is_of(&t, &tcs[k]), ex[k], "C is_of " << k); }
            if (&h == &types.back() || &h == &types.front()) typed(h);
            MC_CHECK(t == t && !(t != t), "equality");
            for (auto& o : types) MC_EQ(t == *o.t, &o == &h, "equality of types");
        }
    }
};

template <int I> const mixin_info& _dynamix_get_mixin_info(const M<I>*) { return g_w->mi(I); }
template <> const type_class TC<0>::m_dynamix_type_class = {dnmx_sv::from_std("has m"), [](dnmx_type_handle t) noexcept { return type::from_c_handle(t)->has(g_w->mi(0)); }};
template <> const type_class TC<1>::m_dynamix_type_class = {dnmx_sv::from_std("f"), [](dnmx_type_handle t) noexcept { return type::from_c_handle(t)->implements_strong(g_w->f[0]); }};
template <> const type_class TC<2>::m_dynamix_type_class = {dnmx_sv::from_std("all"), [](dnmx_type_handle) noexcept { return true; }};
template <> const type_class TC<3>::m_dynamix_type_class = {dnmx_sv::from_std("two"), [](dnmx_type_handle t) noexcept { return dnmx_type_num_mixins(t) == 2; }};

void histories(int depth, bool merge) {
    static const std::vector<list> L = {{0}, {1}, {2}, {0, 1}, {1, 0}, {2, 4}, {4, 1}, {3}, {1, 3}, {3, 2, 0}, {4, 3, 2, 1, 0}};
    int start = mc::choose(3);
    if (mc::pruned()) return;
    world w;
    auto reg = [&](int i) { w.d->register_mixin(w.mi(i)); w.reg[i] = true; for (int k = 0; k < NF; ++k) if (w.provides(i, k)) w.freg[k] = true; };
    if (start >= 1) { reg(2); reg(0); }
    if (start >= 2) { w.d->register_feature(w.f[3]); w.freg[3] = true; reg(4); reg(1); }
    w.check();
    for (int step = 0; step < depth; ++step) {
        if (merge) {
            std::string key; for (int i = 0; i < NM; ++i) key += char(w.reg[i] ? w.mi(i).id.i : 99); for (int i = 0; i < NF; ++i) key += char(w.freg[i] ? w.f[i].id.i : 99);
            std::vector<std::string> ts; for (auto& h : w.types) { std::string s; for (int i : h.l) s += char('0' + i); ts.push_back(s); } std::sort(ts.begin(), ts.end()); for (auto& s : ts) key += "|" + s;
            if (!mc::visit(key, depth - step)) return;
        }
        int k = mc::choose(1 + 2 * NM + 2 * NF + int(L.size()));
        if (mc::pruned()) return;
        if (k == 0) break;
        k -= 1;
        if (k < NM) { if (w.reg[k]) return; MC_STEP("register mixin " << k); reg(k); }
        else if (k < 2 * NM) {
            k -= NM; if (!w.reg[k]) return;
            MC_STEP("unregister mixin " << k); w.d->unregister_mixin(w.mi(k)); w.reg[k] = false;
            w.types.erase(std::remove_if(w.types.begin(), w.types.end(), [&](auto& h) { return world::in(h.l, k); }), w.types.end());
        }
        else if (k < 2 * NM + NF) { k -= 2 * NM; if (w.freg[k]) return; MC_STEP("register feature " << k); w.d->register_feature(w.f[k]); w.freg[k] = true; }
        else if (k < 2 * NM + 2 * NF) {
            k -= 2 * NM + NF; if (!w.freg[k]) return;
            for (int m = 0; m < NM; ++m) if (w.reg[m] && w.provides(m, k)) return; // still needed
            MC_STEP("unregister feature " << k); w.d->unregister_feature(w.f[k]); w.freg[k] = false;
        }
        else {
            auto& l = L[size_t(k - 2 * NM - 2 * NF)]; infos q;
            for (int i : l) { if (!w.reg[i]) return; q.push_back(&w.mi(i)); }
            for (auto& h : w.types) if (h.l == l) return;
            std::string s; for (int i : l) s += char('0' + i);
            MC_STEP("type " << s);
            w.types.push_back({&w.d->get_type(q), l});
        }
        w.check();
        mc::outcome(MC_STR(w.types.size() << w.types.back().l.size()));
    }
}

// traits: all combinations of functions of up to three mixins
void traits(int n) {
    int caps[3] = {}; for (int i = 0; i < n; ++i) caps[i] = mc::choose(64);
    if (mc::pruned()) return;
    world_guard wg; res dres("domain");
    domain d("d", domain_settings{}, 0, nullptr, allocator(&dres));
    std::deque<probe> ps; infos q;
    bool e[6] = {true, true, true, true, true, true};
    static const char* nm[] = {"x", "y", "z"};
    for (int i = 0; i < n; ++i) {
        ps.emplace_back(nm[i], 4, 4); auto& p = ps.back().info; int c = caps[i];
        if (!(c & 1)) { p.init = nullptr; e[0] = false; }
        if (!(c & 2)) { p.copy_init = nullptr; e[1] = false; }
        if (!(c & 4)) { p.copy_asgn = nullptr; e[2] = false; }
        if (!(c & 8)) p.equals = nullptr;
        if (!(c & 16)) { p.compare = nullptr; e[4] = false; }
        if (!(c & 24)) e[3] = false;
        if (!(c & 32)) p.move_init = p.move_asgn = nullptr; // of no importance
        d.register_mixin(p); q.push_back(&p);
    }
    e[5] = e[1] && e[2];
    auto& t = d.get_type(q);
    MC_STEP("type of capabilities " << caps[0] << ' ' << caps[1] << ' ' << caps[2]);
    MC_EQ(t.default_constructible(), e[0], "default constructible"); MC_EQ(t.copy_constructible(), e[1], "copy constructible"); MC_EQ(t.copy_assignable(), e[2], "copy assignable"); MC_EQ(t.copyable(), e[5], "copyable");
    MC_EQ(t.equality_comparable(), e[3], "equality comparable"); MC_EQ(t.comparable(), e[4], "comparable");
    MC_EQ(dnmx_type_is_default_constructible(&t), e[0], "C default constructible"); MC_EQ(dnmx_type_is_copy_constructible(&t), e[1], "C copy constructible"); MC_EQ(dnmx_type_is_copy_assignable(&t), e[2], "C copy assignable"); MC_EQ(dnmx_type_is_copyable(&t), e[5], "C copyable");
    MC_EQ(dnmx_type_is_equality_comparable(&t), e[3], "C equality comparable"); MC_EQ(dnmx_type_is_comparable(&t), e[4], "C comparable");
    std::string o; for (bool b : e) o += char('0' + b); mc::outcome(o);
    // and they are kept: objects can be created and copied exactly then
    auto out = outcome_of([&] { object x(t); auto out2 = outcome_of([&] { auto y = x.copy(); }); MC_EQ(out2.empty(), e[1], "copying an object"); });
    MC_EQ(out.empty(), e[0], "creating an object");
}

// type classes by name: all histories of registrations
void classes(int depth) {
    world w;
    bool reg[4] = {};
    for (int i = 0; i < 3; ++i) w.d->register_mixin(w.mi(i));
    auto add = [&](const list& l) { infos q; for (int i : l) q.push_back(&w.mi(i)); w.types.push_back({&w.d->get_type(q), l}); };
    add({0}); add({1, 2}); add({2});
    type_class same = {w.tcs[0].name, w.tcs[2].matches}; // another one of the same name
    object o(*w.types[1].t);
    for (int step = 0; step < depth; ++step) {
        int k = mc::choose(10);
        if (mc::pruned()) return;
        if (k < 4) { MC_STEP("register class " << k); auto out = outcome_of([&] { w.d->register_type_class(w.tcs[k]); }); MC_EQ(!out.empty(), reg[k], "registration"); reg[k] = true; }
        else if (k < 8) { k -= 4; MC_STEP("unregister class " << k); w.d->unregister_type_class(w.tcs[k]); reg[k] = false; }
        else if (k == 8) { if (!reg[0]) return; MC_STEP("register another class with the name of class 0"); auto out = outcome_of([&] { w.d->register_type_class(same); }); MC_CHECK(!out.empty(), "registration of a duplicate name"); }
        else break;
        std::string oc;
        for (auto& h : w.types) for (int c = 0; c < 4; ++c) {
            bool ex[4] = {world::in(h.l, 0), world::in(h.l, 0) || world::in(h.l, 1), true, h.l.size() == 2};
            bool got = false; std::string n(w.tcs[c].name.to_std());
            auto out = outcome_of([&] { got = h.t->is_of(n); });
            MC_EQ(out.empty(), reg[c], "query of " << (reg[c] ? "a registered" : "an unregistered") << " type class by name");
            if (reg[c]) MC_EQ(got, ex[c], "is_of '" << n << "'");
            MC_EQ(dnmx_type_is_of_name(h.t, w.tcs[c].name), reg[c] && ex[c], "C is_of '" << n << "'");
            if (h.t == &o.get_type()) {
                bool g2 = false; auto out2 = outcome_of([&] { g2 = o.is_of(n); });
                MC_CHECK(out2 == out && g2 == got, "is_of of an object"); MC_EQ(o.is_of(w.tcs[c]), ex[c], "is_of of an object");
            }
            oc += char('0' + got);
        }
        mc::outcome(oc);
    }
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("histories/all-sequences", [] { histories(pick(3, 4), false); });
        mc::section("histories/all-states", [] { histories(pick(4, 6), true); });
        mc::section("traits/all-capabilities", [] { traits(2); });
        if (mc::thorough) mc::section("traits/three-mixins", [] { traits(3); });
        mc::section("type-classes/all-sequences", [] { classes(pick(5, 6)); });
        mc::section("many-implementers", [] { wide::features(pick(33, 257)); });
    });
}
