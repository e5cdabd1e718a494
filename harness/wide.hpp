// Scale: the same guarantees with many elements. All sizes of a list of sizes (all small ones and those around powers of two) and all positions
// of a list of positions are enumerated.
#pragma once
#include "kit.hpp"
#include <algorithm>

namespace wide {
using namespace kit;
inline std::vector<int> scales(int max) {
    std::vector<int> r;
    for (int i = 1; i <= 17; ++i) r.push_back(i);
    for (int i : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025}) r.push_back(i);
    while (r.size() > 1 && r.back() > max) r.pop_back();
    return r;
}
inline int scale(int max, int min = 1) { auto r = scales(max); while (r.front() < min) r.erase(r.begin()); return r[size_t(mc::choose(int(r.size())))]; }
// all positions of a small list, otherwise both ends, the middle, and around powers of two
inline std::vector<int> positions(int n) {
    std::set<int> s;
    for (int i = 0; i < n; ++i) {
        bool pow2 = false; for (int p = 1; p <= n; p *= 2) if (i == p - 1 || i == p || i == p + 1) pow2 = true;
        if (n <= 17 || i < 3 || i >= n - 3 || i == n / 2 || (pow2 && i > 13)) s.insert(i);
    }
    return {s.begin(), s.end()};
}
inline int position(int n) { auto p = positions(n); return p[size_t(mc::choose(int(p.size())))]; }
// distinct names: short, with a common long beginning, with a common long end, of different lengths
enum { name_styles = 4 };
inline std::string name(int i, int style) {
    std::string num = std::to_string(i);
    switch (style) {
    case 0: return "n" + num;
    case 1: return std::string(100, 'p') + num;
    case 2: return num + std::string(100, 's');
    default: return std::string(size_t(i) + 1, 'l');
    }
}
inline const char* style_name(int s) { static const char* n[] = {"short names", "names with a common beginning", "names with a common end", "names of different lengths"}; return n[s]; }

// rearrangements of 0..n-1
enum { arrangements = 7 };
inline std::vector<int> arrange(int n, int how) {
    std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i);
    switch (how) {
    case 1: std::reverse(v.begin(), v.end()); break;
    case 2: std::rotate(v.begin(), v.begin() + n / 2, v.end()); break;
    case 3: { std::vector<int> r; for (int i = 0; i < n; i += 2) r.push_back(i); for (int i = 1; i < n; i += 2) r.push_back(i); v = r; break; }
    case 4: std::swap(v.front(), v.back()); break;
    case 5: if (n > 1) std::swap(v[size_t(n) - 1], v[size_t(n) - 2]); break;
    case 6: { int s = 7; while (n % s == 0) s += 2; for (int i = 0; i < n; ++i) v[size_t(i)] = int((int64_t(i) * s + 3) % n); std::set<int> q(v.begin(), v.end()); if (int(q.size()) != n) return arrange(n, 0); break; }
    }
    return v;
}
// probes of many sizes, alignments and placements
inline void fill(std::deque<probe>& ps, int n, int kind, mixalloc* ma, int style = 0) {
    static const int sa[][2] = {{1, 1}, {8, 8}, {3, 2}, {24, 4}, {5, 1}, {16, 16}, {40, 32}, {7, 1}, {64, 64}, {12, 4}};
    for (int i = 0; i < n; ++i) {
        auto s = sa[(i * 3 + kind) % 10];
        auto& p = ps.emplace_back(name(i, style), uint32_t(s[0]), uint32_t(s[1]));
        // kind: 0 - all internal, 1 - all external, 2 - alternating, 3 - every third with an allocator and every fifth external
        if (kind == 1 || (kind == 2 && i % 2) || (kind == 3 && i % 5 == 1)) p.external();
        if (kind == 3 && i % 3 == 2 && ma) p.uses(*ma);
    }
}
enum { kinds = 4 };

// ---------------------------------------------------------------- an object with many mixins
// one operation, on an object of n mixins, around position p; everything is checked afterwards
struct objects {
    world_guard wg;
    res dres{"domain"}, ores{"object"};
    mixalloc ma{"mixin allocator"};
    std::deque<probe> ps;
    std::unique_ptr<domain> d;
    int n;
    objects(int n, int kind) : n(n) {
        d = std::make_unique<domain>("d", domain_settings{}, 0, nullptr, allocator(&dres));
        fill(ps, n, kind, &ma);
        for (auto& p : ps) d->register_mixin(p.info);
    }
    ~objects() { d.reset(); for (auto r : {&dres, &ores, &ma.r}) r->check_empty("end"); }
    const mixin_info& mi(int i) { return ps[size_t(i)].info; }
    infos list(const std::vector<int>& l) { infos v; for (int i : l) v.push_back(&mi(i)); return v; }
    const type& ty(const std::vector<int>& l) { return d->get_type(list(l)); }
    using snap = std::map<int, std::pair<int, const void*>>; // value and address by mixin
    snap look(object& o) { snap s; for (int i = 0; i < n; ++i) if (auto p = o.get(mi(i))) s[i] = {T().val(p), p}; return s; }
    // the object has exactly these mixins in this order, and they are alive and separate
    void check(object& o, const std::vector<int>& l, const char* what) {
        MC_CHECK(type_mixins(o.get_type()) == list(l), what << ": type of the object");
        block_set b; check_layout(o, ores, b);
        size_t k = 0;
        for (int i : l) {
            auto p = o.get(mi(i));
            probe::alive(&mi(i), p, what);
            MC_CHECK(o.get_at(mixin_index_t(k)) == p && o.get(mi(i).name.to_std()) == p && o.has(mi(i)) && o.has(mi(i).id), what << ": getters of mixin " << i);
            ++k;
        }
        MC_EQ(size_t(o.num_mixins()), l.size(), what << ": number of mixins");
        for (int i = 0; i < n; ++i) if (std::find(l.begin(), l.end(), i) == l.end()) MC_CHECK(!o.get(mi(i)) && !o.has(mi(i)), what << ": a mixin which isn't there");
    }
    // mixins in both keep values (and external ones addresses)
    void kept(const snap& before, object& o, const char* what) {
        for (auto& x : before) if (auto p = o.get(mi(x.first))) {
            MC_EQ(T().val(p), x.second.first, what << ": value of mixin " << x.first);
            if (mi(x.first).external()) MC_CHECK(p == x.second.second, what << ": address of external mixin " << x.first);
        }
    }
};
enum { object_operations = 12 };
inline void object_histories(int max) {
    int n = scale(max), kind = mc::choose(kinds), op = mc::choose(object_operations);
    int p = op <= 5 || op >= 9 ? position(n) : 0;
    int how = op == 6 ? 1 + mc::choose(arrangements - 1) : 0;
    if (mc::pruned()) return;
    objects w(n, kind);
    auto all = arrange(n, 0); auto without = all; without.erase(without.begin() + p);
    std::vector<int> first(all.begin(), all.begin() + p), rest(all.begin() + p, all.end()), one{p};
    MC_STEP(n << " mixins of kind " << kind << ", operation " << op << " at " << p << " arrangement " << how);
    mc::outcome(MC_STR(n << ' ' << kind << ' ' << op << ' ' << p << ' ' << how));
    auto& t = w.ty(all);
    {
        object o(t, allocator(&w.ores));
        w.check(o, all, "creation");
        auto s = w.look(o);
        MC_EQ(T().calls[f_init], uint64_t(n), "initializations");
        switch (op) {
        case 0: o.reset_type(w.ty(without)); w.check(o, without, "removal"); w.kept(s, o, "removal"); o.reset_type(t); w.check(o, all, "return"); break;
        case 1: o.reset_type(w.ty(one)); w.check(o, one, "only one remains"); w.kept(s, o, "one remains"); break;
        case 2: o.reset_type(w.ty(first)); w.check(o, first, "the first ones remain"); w.kept(s, o, "the first ones remain"); o.reset_type(w.ty(rest)); w.check(o, rest, "the others"); break;
        case 3: { // failing initialization
            object x(w.ty(one), allocator(&w.ores)); auto sx = w.look(x); auto live = T().live.size(), blocks = w.ores.live.size() + w.ma.r.live.size();
            static int left; left = n - 1; if (!left) break;
            T().fault = [](fn f, const probe&) { return f == f_init && --left == 0 ? 1 : 0; };
            auto out = outcome_of([&] { x.reset_type(t); });
            T().fault = nullptr;
            MC_EQ(out, std::string("object_error"), "failing last initialization");
            w.check(x, one, "after a failure"); MC_CHECK(w.look(x) == sx, "value and address after a failure");
            MC_EQ(T().live.size(), live, "mixins after a failure"); MC_EQ(w.ores.live.size() + w.ma.r.live.size(), blocks, "blocks after a failure");
            MC_EQ(t.num_objects(), size_t(1), "objects after a failure");
            break;
        }
        case 4: { // failing at p
            object x(*w.d, allocator(&w.ores)); auto live = T().live.size(), blocks = w.ores.live.size() + w.ma.r.live.size();
            static const probe* bad; bad = &w.ps[size_t(p)];
            T().fault = [](fn f, const probe& q) { return f == f_init && &q == bad ? 2 : 0; };
            auto out = outcome_of([&] { x.reset_type(t); });
            T().fault = nullptr;
            MC_EQ(out, std::string("std_exception"), "failing initialization");
            w.check(x, {}, "after a failure");
            MC_EQ(T().live.size(), live, "mixins after a failure"); MC_EQ(w.ores.live.size() + w.ma.r.live.size(), blocks, "blocks after a failure");
            MC_EQ(t.num_objects(), size_t(1), "objects after a failure");
            break;
        }
        case 5: { // copy-assignment into an object with some of the mixins
            object x(w.ty(rest), allocator(&w.ores)); auto sx = w.look(x); auto inits = T().calls[f_copy_init], asgns = T().calls[f_copy_asgn];
            x.copy_from(o); w.check(x, all, "copy_from"); auto now = w.look(x);
            for (int i : all) MC_EQ(now[i].first, s[i].first, "copied value of mixin " << i);
            for (int i : rest) if (w.mi(i).external()) MC_CHECK(now[i].second == sx[i].second, "address of an external mixin in copy_from");
            MC_EQ(T().calls[f_copy_init] - inits, uint64_t(p), "copy constructions"); MC_EQ(T().calls[f_copy_asgn] - asgns, uint64_t(n - p), "copy assignments");
            break;
        }
        case 6: { auto l = arrange(n, how); o.reset_type(w.ty(l)); w.check(o, l, "rearranged"); w.kept(s, o, "rearranged"); break; }
        case 7: { auto c = o.copy(allocator(&w.ores)); w.check(c, all, "copy"); auto cs = w.look(c); for (int i : all) { MC_EQ(cs[i].first, s[i].first, "copied value of mixin " << i); MC_CHECK(cs[i].second != s[i].second, "address of a copy"); } MC_CHECK(w.look(o) == s, "source of a copy"); MC_EQ(t.num_objects(), size_t(2), "objects"); MC_CHECK(n == 0 || (o.equals(c) && o.compare(c) == 0), "a copy is equal"); break; }
        case 8: {
            object x(std::move(o)); w.check(x, all, "move"); MC_CHECK(w.look(x) == s, "values and addresses after a move"); w.check(o, {}, "moved from");
            o = std::move(x); w.check(o, all, "move back"); MC_CHECK(w.look(o) == s, "values and addresses after a move back"); w.check(x, {}, "moved from"); MC_EQ(t.num_objects(), size_t(1), "objects");
            break;
        }
        case 9: { // copy matching
            object x(w.ty(without), allocator(&w.ores)); auto asgns = T().calls[f_copy_asgn];
            x.copy_matching_from(o); w.check(x, without, "copy_matching_from"); auto now = w.look(x); for (int i : without) MC_EQ(now[i].first, s[i].first, "copied value of mixin " << i);
            MC_EQ(T().calls[f_copy_asgn] - asgns, uint64_t(n - 1), "copy assignments"); MC_CHECK(w.look(o) == s, "source");
            break;
        }
        case 10: { // move matching
            object x(w.ty(one), allocator(&w.ores)); x.move_matching_from(o); w.check(x, one, "move_matching_from"); MC_EQ(T().val(x.get(w.mi(p))), s[p].first, "moved value");
            auto now = w.look(o); for (int i : without) MC_CHECK(now[i] == s[i], "mixin " << i << " isn't moved"); w.check(o, all, "moved from");
            break;
        }
        case 11: { // equality and order
            object x(o.copy(allocator(&w.ores))); T().set(x.get(w.mi(p)), s[p].first + 1);
            MC_CHECK(!o.equals(x) && !x.equals(o), "objects which differ in mixin " << p << " are not equal");
            MC_CHECK(o.compare(x) < 0 && x.compare(o) > 0, "order of objects which differ in mixin " << p);
            if (p + 1 < n) { T().set(x.get(w.mi(n - 1)), s[n - 1].first - 1); MC_CHECK(o.compare(x) < 0 && x.compare(o) > 0, "the first difference decides"); }
            break;
        }
        }
    }
    MC_CHECK(T().live.empty(), "mixins after the end of their objects");
    MC_EQ(w.ores.live.size() + w.ma.r.live.size(), size_t(0), "blocks after the end of the objects");
    MC_EQ(t.num_objects(), size_t(0), "objects at the end");
    MC_EQ(T().calls[f_destroy], T().calls[f_init] + T().calls[f_copy_init] + T().calls[f_move_init] - (op == 3 && n > 1 ? 1 : op == 4 ? 1 : 0), "as many are destroyed as were constructed");
}

// ---------------------------------------------------------------- many registered elements
struct reg_mixin {
    using info = mixin_info; static info mk() { return dnmx_make_mixin_info(); }
    static void reg(domain& d, info& i) { d.register_mixin(i); } static void unreg(domain& d, info& i) { d.unregister_mixin(i); }
    static const info* by_id(domain& d, uint32_t i) { return d.get_mixin_info(mixin_id{i}); } static const info* by_name(domain& d, std::string_view n) { return d.get_mixin_info(n); }
    static std::vector<const info*> all(domain& d) { std::vector<const info*> v; domain_traverse(d).traverse_mixins([&](const info& i) { v.push_back(&i); }); return v; }
    static int64_t id(const info& i) { return int64_t(i.id.i); }
};
struct reg_feature {
    using info = feature_info; static info mk() { return dnmx_make_feature_info(); }
    static void reg(domain& d, info& i) { d.register_feature(i); } static void unreg(domain& d, info& i) { d.unregister_feature(i); }
    static const info* by_id(domain& d, uint32_t i) { return d.get_feature_info(feature_id{i}); } static const info* by_name(domain& d, std::string_view n) { return d.get_feature_info(n); }
    static std::vector<const info*> all(domain& d) { std::vector<const info*> v; domain_traverse(d).traverse_features([&](const info& i) { v.push_back(&i); }); return v; }
    static int64_t id(const info& i) { return int64_t(i.id.i); }
};
// n are registered, the p-th and the q-th are unregistered, then others are registered
template <typename R> void registry(int max) {
    int n = scale(max), style = mc::choose(name_styles), dup = mc::choose(2), p = position(n), holes = mc::choose(4);
    if (mc::pruned()) return;
    MC_STEP(n << " registered with " << style_name(style) << ", hole at " << p << " with " << holes << " more" << (dup ? ", duplicates allowed" : ""));
    mc::outcome(MC_STR(n << ' ' << style << ' ' << dup << ' ' << p << ' ' << holes));
    world_guard wg;
    domain_settings st = {}; st.allow_duplicate_feature_names = st.allow_duplicate_mixin_names = dup;
    domain d("d", st);
    using I = typename R::info;
    std::deque<std::string> nm; std::deque<I> is; std::vector<const I*> slots;
    auto add = [&](std::string s) -> I& { nm.push_back(std::move(s)); is.push_back(R::mk()); is.back().name = dnmx_sv::from_std(nm.back()); return is.back(); };
    auto check = [&](const char* when) {
        for (uint32_t i = 0; i < slots.size() + 3; ++i) {
            auto e = i < slots.size() ? slots[i] : nullptr;
            MC_CHECK(R::by_id(d, i) == e, when << ": lookup by id " << i);
            if (e) { MC_EQ(R::id(*e), int64_t(i), when << ": id"); MC_CHECK(R::by_name(d, e->name.to_std()) == e, when << ": lookup by name of " << i); }
        }
        std::vector<const I*> e; for (auto x : slots) if (x) e.push_back(x);
        MC_CHECK(R::all(d) == e, when << ": traversal");
        MC_CHECK(!R::by_name(d, name(n + 5, style)) && !R::by_name(d, name(0, style) + "x") && !R::by_name(d, std::string_view(nm[0]).substr(0, nm[0].size() - 1)), when << ": names which aren't registered");
    };
    for (int i = 0; i < n; ++i) { auto& x = add(name(i, style)); R::reg(d, x); slots.push_back(&x); }
    check("registered");
    // a name which is already there
    if (!dup) {
        auto& x = add(name(p, style));
        MC_EQ(outcome_of([&] { R::reg(d, x); }), std::string("domain_error"), "duplicate of the name of " << p);
        MC_EQ(R::id(x), int64_t(dnmx_invalid_id), "id of a refused one");
    }
    MC_EQ(outcome_of([&] { R::reg(d, is[size_t(p)]); }), std::string("domain_error"), "second registration of " << p);
    check("after refused registrations");
    std::set<int> free{p};
    if (holes == 1) free.insert((p + 1) % n); if (holes == 2) { free.insert(0); free.insert(n - 1); } if (holes == 3) for (int i = 0; i < n; ++i) free.insert(i);
    auto order = std::vector<int>(free.rbegin(), free.rend()); if (dup) std::reverse(order.begin(), order.end());
    for (int i : order) { R::unreg(d, is[size_t(i)]); slots[size_t(i)] = nullptr; MC_EQ(R::id(is[size_t(i)]), int64_t(dnmx_invalid_id), "id of an unregistered one"); MC_CHECK(!R::by_name(d, is[size_t(i)].name.to_std()), "unregistered name"); }
    MC_EQ(outcome_of([&] { R::unreg(d, is[size_t(p)]); }), std::string("domain_error"), "second unregistration");
    check("after unregistration");
    for (int i : free) { auto& x = add(name(n + 1000 + i, 0)); R::reg(d, x); slots[size_t(i)] = &x; MC_EQ(R::id(x), int64_t(i), "the least free id"); }
    { auto& x = add(name(n + 5000, 0)); R::reg(d, x); slots.push_back(&x); MC_EQ(R::id(x), int64_t(n), "the next id"); }
    if (holes != 3) check("registered again");
}

// ---------------------------------------------------------------- long lists of mixins
inline void types(int max) {
    int n = scale(max, 2), p = position(n), var = mc::choose(4);
    if (mc::pruned()) return;
    MC_STEP("lists of " << n << " mixins which differ around " << p << " variant " << var);
    mc::outcome(MC_STR(n << ' ' << p << ' ' << var));
    world_guard wg;
    std::deque<probe> ps; for (int i = 0; i < n + 2; ++i) ps.emplace_back(name(i, 0), 1, 1);
    domain d("d"); for (int i = 0; i <= n; ++i) d.register_mixin(ps[size_t(i)].info); // the last one isn't registered
    auto mi = [&](int i) { return &ps[size_t(i)].info; };
    infos all; for (int i = 0; i < n; ++i) all.push_back(mi(i));
    std::vector<infos> L;
    L.push_back(all);
    { auto l = all; l[size_t(p)] = mi(n); L.push_back(l); }                        // another one at p
    { auto l = all; l.erase(l.begin() + p); L.push_back(l); if (l.empty()) L.pop_back(); } // without p
    if (p + 1 < n) { auto l = all; std::swap(l[size_t(p)], l[size_t(p) + 1]); L.push_back(l); }
    if (p != n - 1 && n > 2 && p + 1 != n - 1) { auto l = all; std::swap(l[size_t(p)], l[size_t(n) - 1]); L.push_back(l); }
    { auto l = all; l.push_back(mi(n)); L.push_back(l); }
    if (n > 3) { auto l = all; std::reverse(l.begin(), l.end()); L.push_back(l); }
    if (n > 4) { auto l = all; std::rotate(l.begin(), l.begin() + 2, l.end()); L.push_back(l); }
    std::set<infos> uniq(L.begin(), L.end()); L.assign(uniq.begin(), uniq.end());
    if (var & 1) std::reverse(L.begin(), L.end());
    auto req = [&](const infos& l, int how) -> const type& {
        if (how == 0) return d.get_type(l);
        type_mutation m(d); for (auto i : l) m.add(*i); return d.get_type(std::move(m));
    };
    std::vector<const type*> T;
    for (auto& l : L) { auto& t = req(l, var >> 1); MC_CHECK(type_mixins(t) == l, "type of a long list"); MC_CHECK(std::find(T.begin(), T.end(), &t) == T.end(), "one type for different lists"); T.push_back(&t); }
    for (size_t i = 0; i < L.size(); ++i) for (int h : {0, 1}) MC_CHECK(&req(L[i], h) == T[i], "another type for the same list");
    MC_EQ(d.num_types(), L.size(), "types");
    // errors
    auto fails = [&](infos l, const char* what) { for (int h : {0, 1}) { auto o = outcome_of([&] { req(l, h); }); MC_CHECK(o == "type_error" || o == "domain_error", what << ": " << o); } };
    { auto l = all; l.push_back(mi(p)); fails(l, "duplicate"); }
    { auto l = all; l.insert(l.begin() + p, mi(n - 1)); fails(l, "duplicate of the last"); }
    if (p) { auto l = all; l[0] = mi(p); fails(l, "duplicate at the beginning"); }
    { auto l = all; l[size_t(p)] = mi(n + 1); fails(l, "unregistered"); }
    MC_EQ(d.num_types(), L.size(), "types after failed requests");
    for (size_t i = 0; i < L.size(); ++i) MC_CHECK(&req(L[i], 0) == T[i], "another type for the same list after failed requests");
    // one is unregistered: types with it are gone, others stay
    d.unregister_mixin(ps[size_t(p)].info);
    size_t left = 0;
    for (size_t i = 0; i < L.size(); ++i) {
        if (std::find(L[i].begin(), L[i].end(), mi(p)) != L[i].end()) fails(L[i], "list with an unregistered mixin");
        else { ++left; MC_CHECK(&req(L[i], 0) == T[i], "type without the unregistered mixin"); }
    }
    MC_EQ(d.num_types(), left, "types without the unregistered mixin");
}

// all orders of arrangement of many mixins in a canonical domain give one type; types compare by the first difference
inline void canonical(int max) {
    int n = scale(max), style = mc::choose(name_styles), prio = mc::choose(4), how = mc::choose(arrangements), p = position(n);
    if (mc::pruned()) return;
    MC_STEP(n << " mixins, " << style_name(style) << ", priorities " << prio << ", arrangement " << how << ", position " << p);
    mc::outcome(MC_STR(n << ' ' << style << ' ' << prio << ' ' << how << ' ' << p));
    world_guard wg;
    std::deque<probe> ps;
    auto ids = arrange(n, how);
    for (int i = 0; i < n; ++i) {
        auto& x = ps.emplace_back(name(ids[size_t(i)], style), 1, 1);
        x.info.order_priority = prio == 0 ? 0 : prio == 1 ? i % 3 : prio == 2 ? -i : (i % 2 ? INT32_MAX : INT32_MIN);
    }
    domain_settings st = {}; st.canonicalize_types = true;
    domain d("d", st), plain("plain"); for (auto& x : ps) d.register_mixin(x.info);
    infos e; for (auto& x : ps) e.push_back(&x.info);
    auto less = [](const mixin_info* a, const mixin_info* b) { if (a->order_priority != b->order_priority) return a->order_priority < b->order_priority; auto x = a->name.to_std(), y = b->name.to_std(); if (x != y) return x < y; return a->id.i < b->id.i; };
    infos sorted = e; std::sort(sorted.begin(), sorted.end(), less);
    auto& t = d.get_type(e); MC_CHECK(type_mixins(t) == sorted, "canonical type: " << (n < 20 ? names(type_mixins(t)) : "") << " expected " << (n < 20 ? names(sorted) : ""));
    for (int k = 0; k < arrangements; ++k) { infos l; for (int i : arrange(n, k)) l.push_back(sorted[size_t(i)]); MC_CHECK(&d.get_type(l) == &t, "arrangement " << k); }
    MC_EQ(d.num_types(), size_t(1), "types");
    for (size_t i = 0; i + 1 < sorted.size(); ++i) MC_CHECK(dnmx_mixin_canonical_order(sorted[i], sorted[i + 1]) && !dnmx_mixin_canonical_order(sorted[i + 1], sorted[i]), "canonical order of neighbours");
    if (n > 1) { // without p: compares by the first difference
        infos l = sorted; l.erase(l.begin() + p);
        auto& u = d.get_type(l); int c = t.compare(u), r = u.compare(t);
        // at p the full list has an earlier mixin (or the shorter list ends)
        MC_CHECK(p == n - 1 ? c > 0 && r < 0 : c < 0 && r > 0, "comparison of types which differ from " << p << " on: " << c << ' ' << r);
    }
}

// ---------------------------------------------------------------- many types and requests
inline void collection(int max) {
    int n = scale(max, 2), p = position(n), mode = mc::choose(5);
    if (mc::pruned()) return;
    MC_STEP(n << " types, objects by mode " << mode << " around " << p);
    mc::outcome(MC_STR(n << ' ' << p << ' ' << mode));
    world_guard wg;
    std::deque<probe> ps; for (int i = 0; i < n; ++i) ps.emplace_back(name(i, 0), 1, 1);
    domain_settings st = {}; st.canonicalize_types = true; // several requests for one type
    domain d("d", st); for (auto& x : ps) d.register_mixin(x.info);
    auto mi = [&](int i) { return &ps[size_t(i % n)].info; };
    std::vector<const type*> T; // types of neighbours
    auto req = [&](int i, bool rev) -> const type& { infos l{mi(i), mi(i + 1)}; if (rev) std::swap(l[0], l[1]); return d.get_type(l); };
    int nt = n == 2 ? 1 : n;
    for (int i = 0; i < nt; ++i) { T.push_back(&req(i, i % 2)); MC_CHECK(&req(i, !(i % 2)) == T.back(), "one type"); }
    MC_EQ(d.num_types(), size_t(nt), "types");
    std::vector<std::vector<object>> O; O.resize(size_t(nt));
    // mode: 0 - one object of p, 1 - objects of all but p, 2 - n objects of p, 3 - objects of every second, 4 - one object of p created and destroyed
    for (int i = 0; i < nt; ++i) { int c = mode == 0 || mode == 4 ? i == p % nt : mode == 1 ? i != p % nt : mode == 2 ? (i == p % nt ? n : 0) : i % 2; for (int k = 0; k < c; ++k) O[size_t(i)].emplace_back(*T[size_t(i)]); }
    for (int i = 0; i < nt; ++i) MC_EQ(T[size_t(i)]->num_objects(), O[size_t(i)].size(), "objects of type " << i);
    if (mode == 4) O[size_t(p % nt)].clear();
    if (mode == 2) { O[size_t(p % nt)].pop_back(); MC_EQ(T[size_t(p % nt)]->num_objects(), size_t(n - 1), "objects but one"); }
    d.garbage_collect_types();
    size_t left = 0;
    for (auto& o : O) left += !o.empty();
    MC_EQ(d.num_types(), left, "types after a collection"); MC_EQ(d.num_type_queries(), 2 * left, "requests after a collection");
    for (int i = 0; i < nt; ++i) if (!O[size_t(i)].empty()) for (bool r : {false, true}) MC_CHECK(&req(i, r) == T[size_t(i)], "type with objects after a collection");
    for (int i = 0; i < nt; ++i) { infos l{mi(i), mi(i + 1)}; auto& t = req(i, true); auto m = type_mixins(t); MC_CHECK(m.size() == 2 && (m == l || m == infos({l[1], l[0]})), "type requested again"); }
    MC_EQ(d.num_types(), size_t(nt), "types requested again");
    O.clear(); d.garbage_collect_types();
    MC_EQ(d.num_types(), size_t(0), "no types"); MC_EQ(d.num_type_queries(), size_t(0), "no requests");
}

// ---------------------------------------------------------------- big ids
// n are registered, each gets the next id and is found by it; any one of the last or of those around powers of 256 is replaced
template <typename R> void big_ids() {
    static const int ns[] = {255, 256, 257, 65537}; // (registration takes time linear in the number of the registered ones)
    int n = ns[mc::choose(4)], last = n < 1000 || mc::thorough ? mc::choose(2) : 1;
    if (mc::pruned()) return;
    MC_STEP(n << " registered, some" << (last ? " and the last one" : "") << " replaced");
    mc::outcome(MC_STR(n << ' ' << last));
    std::vector<int> ps; for (int x : {0, 1, 254, 255, 256, n / 2, 65534, 65535, 65536, n - 1}) if (x < n && std::find(ps.begin(), ps.end(), x) == ps.end()) ps.push_back(x);
    using I = typename R::info;
    int spare = 3 * int(ps.size());
    domain_settings st = {}; st.allow_duplicate_feature_names = st.allow_duplicate_mixin_names = true;
    std::vector<std::string> nm; for (int i = 0; i < n + spare; ++i) nm.push_back("n" + std::to_string(i));
    std::vector<I> is(size_t(n + spare), R::mk()); for (int i = 0; i < n + spare; ++i) is[size_t(i)].name = dnmx_sv::from_std(nm[size_t(i)]);
    std::vector<I*> slots;
    world_guard wg; domain d("d", st);
    for (int i = 0; i < n; ++i) {
        R::reg(d, is[size_t(i)]); slots.push_back(&is[size_t(i)]); if (R::id(is[size_t(i)]) != i) MC_EQ(R::id(is[size_t(i)]), int64_t(i), "id");
        if (i % 8192 == 0) mc::progress();
    }
    auto check = [&](const char* when) {
        for (uint32_t i = 0; i < slots.size() + 2; ++i) {
            auto e = i < slots.size() ? slots[i] : nullptr;
            if (R::by_id(d, i) != e) mc::fail(MC_STR(when << ": lookup by id " << i));
            if (e && R::id(*e) != int64_t(i)) mc::fail(MC_STR(when << ": id of " << i << ": " << R::id(*e)));
        }
        for (int i : ps) if (slots[size_t(i)]) MC_CHECK(R::by_name(d, slots[size_t(i)]->name.to_std()) == slots[size_t(i)], when << ": lookup by name of " << i);
        std::vector<const I*> e; for (auto x : slots) if (x) e.push_back(x);
        MC_CHECK(R::all(d) == e, when << ": traversal");
    };
    check("registered");
    int k = n;
    for (int p : ps) {
        std::set<int> free{p}; if (last) free.insert(int(slots.size()) - 1);
        for (int i : free) { auto x = slots[size_t(i)]; R::unreg(d, *x); slots[size_t(i)] = nullptr; MC_EQ(R::id(*x), int64_t(dnmx_invalid_id), "id of an unregistered one"); }
        check("after unregistration");
        for (int i : free) { auto& x = is[size_t(k++)]; R::reg(d, x); slots[size_t(i)] = &x; MC_EQ(R::id(x), int64_t(i), "the least free id"); }
        { auto& x = is[size_t(k++)]; auto id = int64_t(slots.size()); R::reg(d, x); slots.push_back(&x); MC_EQ(R::id(x), id, "the next id"); }
        check("registered again");
    }
}
// types of few mixins whose ids are around powers of 256
inline void types_of_big_ids() {
    static const int ns[] = {256, 257, 258, 65538};
    int n = ns[mc::choose(4)]; bool few = n > 1000 && !mc::thorough; int canonical = few ? 0 : mc::choose(2), how = few ? 0 : mc::choose(2);
    if (mc::pruned()) return;
    MC_STEP("types of mixins with ids up to " << n - 1 << (canonical ? ", canonical" : ""));
    mc::outcome(MC_STR(n << ' ' << canonical << how));
    std::vector<int> L; for (int x : {0, 1, 255, 256, n / 2, 65534, 65535, 65536, n - 2, n - 1}) if (x < n && std::find(L.begin(), L.end(), x) == L.end()) L.push_back(x);
    std::vector<std::string> nm; for (int i = 0; i < n; ++i) nm.push_back("n" + std::to_string(i));
    mixin_info proto = dnmx_make_mixin_info(); proto.size = 4; proto.alignment = 4; proto.init = [](const mixin_info* i, void* p) -> dnmx_error_return_t { *static_cast<uint32_t*>(p) = i->id.i; return 0; };
    proto.move_init = [](const mixin_info*, void* a, void* b) noexcept { *static_cast<uint32_t*>(a) = *static_cast<uint32_t*>(b); };
    std::vector<mixin_info> is(size_t(n), proto);
    domain_settings st = {}; st.allow_duplicate_mixin_names = true; st.canonicalize_types = canonical;
    std::vector<feature_info> fs(2, dnmx_make_feature_info()); fs[0].name = dnmx_make_sv_lit("f0"); fs[1].name = dnmx_make_sv_lit("f1");
    dnmx_feature_for_mixin fm[2][2] = {}; for (int i : {0, 1}) { fm[i][0].info = &fs[size_t(i)]; fm[i][0].payload = reinterpret_cast<dnmx_feature_payload>(&fm[i]); }
    world_guard wg; domain d("d", st);
    for (int i = 0; i < n; ++i) { auto& x = is[size_t(i)]; x.name = dnmx_sv::from_std(nm[size_t(i)]); if (i == L.back()) x.features = fm[0], x.num_features = 1; if (i == L[L.size() - 2]) x.features = fm[1], x.num_features = 1; d.register_mixin(x); if (i % 8192 == 0) mc::progress(); }
    std::map<std::vector<int>, const type*> T;
    for (int a : L) for (int b : L) for (int c : {-1, L.front(), L.back()}) {
        std::vector<int> l{a}; if (b != a) l.push_back(b); if (c >= 0 && c != a && c != b) l.push_back(c);
        infos q; for (int i : l) q.push_back(&is[size_t(i)]);
        auto get = [&]() -> const type& { if (!how) return d.get_type(q); type_mutation m(d); for (auto i : q) m.add(*i); return d.get_type(std::move(m)); };
        auto& t = get();
        if (canonical) std::sort(l.begin(), l.end(), [&](int x, int y) { return nm[size_t(x)] < nm[size_t(y)]; });
        infos e; for (int i : l) e.push_back(&is[size_t(i)]);
        std::string w = "type of"; for (int i : l) w += " " + std::to_string(i);
        MC_CHECK(type_mixins(t) == e, w << ": mixins");
        auto f = T.emplace(l, &t).first; MC_CHECK(f->second == &t, w << ": another type for the same list");
        MC_EQ(d.num_types(), T.size(), w << ": types");
        object o(t); const object& co = o;
        std::set<int> probes(L.begin(), L.end()); for (int x : l) for (int y : {x % 256, x % 65536, x - 1, x + 1, x + 256}) if (y >= 0 && y < n) probes.insert(y);
        for (int i : probes) {
            auto& mi = is[size_t(i)]; auto pos = std::find(l.begin(), l.end(), i); bool has = pos != l.end();
            MC_EQ(t.has(mi), has, w << ": has " << i); MC_EQ(t.has(mi.id), has, w << ": has the id " << i);
            MC_EQ(int64_t(t.index_of(mi.id)), has ? int64_t(pos - l.begin()) : int64_t(dnmx_invalid_mixin_index), w << ": index of " << i);
            auto v = static_cast<const uint32_t*>(co.get(mi.id)); MC_EQ(v != nullptr, has, w << ": the object has " << i); MC_CHECK(o.get(mi) == v, w << ": the mixin by info " << i);
            if (v) MC_EQ(*v, uint32_t(i), w << ": contents of " << i);
        }
        for (int k : {0, 1}) {
            int m = k ? L[L.size() - 2] : L.back(); bool has = std::find(l.begin(), l.end(), m) != l.end();
            MC_EQ(t.implements(fs[size_t(k)]), has, w << ": implements f" << k);
        }
    }
    if (mc::thorough) { d.unregister_mixin(is[size_t(L.back())]); for (auto i = T.begin(); i != T.end();) if (std::find(i->first.begin(), i->first.end(), L.back()) != i->first.end()) i = T.erase(i); else ++i; MC_EQ(d.num_types(), T.size(), "types after the last mixin is gone"); }
}

// ---------------------------------------------------------------- a rule which is added many times
inline void rule_counts() {
    static const int ns[] = {1, 2, 127, 128, 255, 256, 257, 65535, 65536, 65537};
    int n = ns[mc::choose(10)], other = mc::choose(3), k = mc::choose(4);
    if (mc::pruned()) return;
    MC_STEP("a rule is added " << n << " times, the other one " << other << " times, " << k);
    mc::outcome(MC_STR(n << ' ' << other << ' ' << k));
    static mixin_info a, b, c; a = b = c = dnmx_make_mixin_info(); a.name = dnmx_make_sv_lit("a"); b.name = dnmx_make_sv_lit("b"); c.name = dnmx_make_sv_lit("c");
    for (auto x : {&a, &b, &c}) { x->size = 4; x->alignment = 4; }
    static mutation_rule_info r0, r1;
    r0 = {dnmx_make_sv_lit("r0"), [](dnmx_type_mutation_handle h, uintptr_t) -> dnmx_error_return_t { type_mutation::from_c_handle(h)->add_if_lacking(b); return 0; }, 0, 0};
    r1 = {dnmx_make_sv_lit("r1"), [](dnmx_type_mutation_handle h, uintptr_t) -> dnmx_error_return_t { type_mutation::from_c_handle(h)->add_if_lacking(c); return 0; }, 0, 0};
    world_guard wg; domain d("d"); for (auto x : {&a, &b, &c}) d.register_mixin(*x);
    infos q{&a};
    auto check = [&](int x, int y) {
        d.garbage_collect_types();
        infos e{&a}; if (x) e.push_back(&b); if (y) e.push_back(&c);
        MC_CHECK(type_mixins(d.get_type(q)) == e, "type while the rules are added " << x << " and " << y << " times");
        std::map<const mutation_rule_info*, size_t> m; if (x) m[&r0] = size_t(x); if (y) m[&r1] = size_t(y);
        std::map<const mutation_rule_info*, size_t> got; domain_traverse(d).traverse_mutation_rules([&](const mutation_rule_info& i, uint32_t r) { got[&i] = r; });
        MC_CHECK(got == m, "rules while they are added " << x << " and " << y << " times: " << (got.count(&r0) ? got[&r0] : 0) << " and " << (got.count(&r1) ? got[&r1] : 0));
        MC_EQ(d.num_mutation_rules(), m.size(), "number of rules");
    };
    auto near = [](int x) { return x < 3 || x % 256 < 2 || x % 256 > 254; };
    if (k & 1) for (int i = 0; i < other; ++i) d.add_mutation_rule(r1);
    for (int i = 1; i <= n; ++i) { d.add_mutation_rule(r0); if (near(i) && (i < 600 || i > n - 600)) check(i, k & 1 ? other : 0); }
    if (!(k & 1)) for (int i = 0; i < other; ++i) d.add_mutation_rule(r1);
    check(n, other);
    if (k & 2) { for (int i = 0; i < other; ++i) d.remove_mutation_rule(r1); other = 0; check(n, 0); }
    for (int i = n - 1; i >= 0; --i) { d.remove_mutation_rule(r0); if (near(i) && (i < 600 || i > n - 600)) check(i, other); }
    d.remove_mutation_rule(r0); check(0, other); // not there any more
}

// ---------------------------------------------------------------- many objects of one type
inline void population(bool huge) {
    static const int ns[] = {1, 2, 255, 256, 257, 65535, 65536, 65537, (1 << 20) + 1};
    int n = ns[mc::choose(huge ? 9 : 8)], how = mc::choose(4);
    if (mc::pruned()) return;
    MC_STEP(n << " objects of a type created in way " << how);
    mc::outcome(MC_STR(n << ' ' << how));
    world_guard wg;
    mixin_info mi = dnmx_make_mixin_info(); mi.name = dnmx_make_sv_lit("m"); mi.size = 4; mi.alignment = 4;
    mi.init = [](const mixin_info*, void*) -> dnmx_error_return_t { return 0; };
    mi.copy_init = mi.copy_asgn = [](const mixin_info*, void*, const void*) -> dnmx_error_return_t { return 0; };
    mi.move_init = [](const mixin_info*, void*, void*) noexcept {};
    domain d("d"); d.register_mixin(mi);
    infos q{&mi}; auto& t = d.get_type(q); std::vector<object> os; os.reserve(size_t(n));
    auto used = [&](size_t left) {
        d.garbage_collect_types();
        MC_EQ(d.num_types(), size_t(left > 0), "types after a collection with " << left << " objects");
        MC_EQ(d.num_type_queries(), size_t(left > 0), "requests after a collection with " << left << " objects");
    };
    for (int i = 0; i < n; ++i) {
        if (how == 0 || (how == 1 && !i)) os.emplace_back(t);
        else if (how == 1) os.push_back(os.back().copy());
        else if (how == 2) { os.emplace_back(d); os.back().reset_type(t); }
        else { object o(t); os.emplace_back(std::move(o)); }
        if (t.num_objects() != size_t(i + 1)) MC_EQ(t.num_objects(), size_t(i + 1), "objects");
    }
    used(size_t(n)); MC_CHECK(&d.get_type(q) == &t, "type of living objects");
    while (!os.empty()) {
        os.pop_back(); auto left = os.size();
        if (left && t.num_objects() != left) MC_EQ(t.num_objects(), left, "objects after some were destroyed");
        if (left < 3 || left % 256 < 2) used(left);
    }
}

// ---------------------------------------------------------------- many implementers and features
inline void features(int max) {
    int n = scale(max), bidm = mc::choose(5), priom = mc::choose(4), how = mc::choose(arrangements);
    if (mc::pruned()) return;
    MC_STEP(n << " implementers, bids " << bidm << ", priorities " << priom << ", arrangement " << how);
    mc::outcome(MC_STR(n << ' ' << bidm << ' ' << priom << ' ' << how));
    world_guard wg;
    // feature i is implemented by the mixins whose index is a multiple of i + 1; the last one by all
    std::deque<std::string> fn; std::deque<feature_info> fs; int nf = std::min(n + 3, 70);
    for (int i = 0; i < nf; ++i) { fn.push_back("f" + std::to_string(i)); fs.push_back(dnmx_make_feature_info()); fs.back().name = dnmx_sv::from_std(fn.back()); fs.back().allow_clashes = true; }
    std::deque<probe> ps; domain d("d");
    for (auto& f : fs) d.register_feature(f);
    auto bid = [&](int i) { return bidm == 0 ? 0 : bidm == 1 ? i % 3 : bidm == 2 ? i : bidm == 3 ? -i / 2 : (i == n / 2 ? 1 : 0); };
    auto prio = [&](int i) { return priom == 0 ? 0 : priom == 1 ? i % 2 : priom == 2 ? -i : i / 3; };
    auto impl = [&](int f, int i) { return f == nf - 1 || i % (f + 1) == f; };
    for (int i = 0; i < n; ++i) { auto& x = ps.emplace_back(name(i, 0), 1, 1); for (int f = nf - 1; f >= 0; --f) if (impl(f, i)) x.feature(fs[size_t(f)], dnmx_feature_payload(&ps), bid(i), prio(i)); d.register_mixin(x.info); }
    infos l; std::vector<int> at; for (int i : arrange(n, how)) { at.push_back(i); l.push_back(&ps[size_t(i)].info); }
    auto& t = d.get_type(l);
    for (int f = 0; f < nf; ++f) {
        std::vector<int> e; for (int k = 0; k < n; ++k) if (impl(f, at[size_t(k)])) e.push_back(k);
        std::sort(e.begin(), e.end(), [&](int a, int b) { int x = at[size_t(a)], y = at[size_t(b)]; if (bid(x) != bid(y)) return bid(x) > bid(y); if (prio(x) != prio(y)) return prio(x) < prio(y); return a > b; });
        auto& fi = fs[size_t(f)]; auto fe = t.ftable_at(fi.id);
        MC_EQ(t.implements_strong(fi), !e.empty(), "implements feature " << f); MC_EQ(t.implements_strong(fi.name.to_std()), !e.empty(), "implements by name feature " << f); MC_EQ(t.implements(fi), !e.empty(), "implements feature " << f);
        MC_EQ(bool(fe), !e.empty(), "entry of feature " << f);
        if (e.empty()) continue;
        MC_EQ(size_t(fe.end - fe.begin), e.size(), "implementers of feature " << f);
        size_t top = 0;
        for (size_t k = 0; k < e.size(); ++k) { MC_EQ(int(fe.begin[k].mixin_index), e[k], "implementer " << k << " of feature " << f); MC_CHECK(fe.begin[k].data->info == &fi, "feature of an implementer"); if (bid(at[size_t(e[k])]) == bid(at[size_t(e[0])])) top = k; }
        MC_EQ(size_t(fe.top_bid_back - fe.begin), top, "top bidders of feature " << f);
        for (size_t k = 0; k < e.size(); ++k) {
            auto& m = *l[size_t(e[k])];
            auto nx = t.find_next_implementer(fi, m);
            if (k + 1 == e.size()) MC_CHECK(!nx, "next implementer after the last"); else MC_CHECK(nx == fe.begin + k + 1, "next implementer after " << k);
            size_t b = k; while (b < e.size() && bid(at[size_t(e[b])]) == bid(at[size_t(e[k])])) ++b;
            size_t c = b; while (c < e.size() && bid(at[size_t(e[c])]) == bid(at[size_t(e[b])])) ++c;
            auto s = t.find_next_bidder_set(fi, m);
            MC_EQ(s.size(), c - b, "next bidders after " << k); if (c > b) MC_CHECK(s.data() == fe.begin + b, "next bidders after " << k);
        }
    }
    // queries of mixins
    for (int i = 0; i < n; ++i) { auto& m = ps[size_t(i)].info; int k = int(std::find(at.begin(), at.end(), i) - at.begin()); MC_EQ(int(t.index_of(m.id)), k, "index of mixin " << i); MC_EQ(int(t.index_of(m.name.to_std())), k, "index by name"); MC_CHECK(t.has(m) && t.has(m.id) && t.has(m.name.to_std()), "has"); }
    // a clash between any two of many
    feature_info no = dnmx_make_feature_info(); no.name = dnmx_make_sv_lit("no clash"); d.register_feature(no);
    if (n > 1) for (int p : positions(n)) {
        world_guard* none = nullptr; (void)none;
        std::deque<probe> qs; int q = (p + n / 2) % n; if (q == p) continue;
        for (int i = 0; i < n; ++i) { auto& x = qs.emplace_back("q" + std::to_string(i), 1, 1); x.feature(no, dnmx_feature_payload(&ps), i % 2, i == q ? p : i); if (i % 2 != p % 2 && i == q) x.features.back().bid = p % 2; x.info.set_features(x.features); }
        for (auto& x : qs) d.register_mixin(x.info);
        infos l2; for (int i : arrange(n, how)) l2.push_back(&qs[size_t(i)].info);
        MC_EQ(outcome_of([&] { d.get_type(l2); }), std::string("type_error"), "clash of " << p << " and " << q << " of " << n);
        l2.erase(std::find(l2.begin(), l2.end(), &qs[size_t(q)].info));
        MC_EQ(outcome_of([&] { d.get_type(l2); }), std::string(""), "without the clash");
        for (auto& x : qs) d.unregister_mixin(x.info);
    }
}
}
