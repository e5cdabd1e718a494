// Every operation with a failure at every point where it can fail: nothing changes, nothing is lost, repeating it succeeds.
#include "kit.hpp"
#include "wide.hpp"
#include <dynamix/mutate.hpp>
#include <dynamix/domain_settings.hpp>
#include <algorithm>
using namespace kit;

namespace {
using list = std::vector<int>;
std::string show(const list& l) { std::string s; for (int i : l) s += char('a' + i); return "[" + s + "]"; }
bool has(const list& l, int m) { return std::find(l.begin(), l.end(), m) != l.end(); }

// the planned failure
int g_left = -1;      // number of failure points until the failure; -1: none is planned
bool g_fired = false;
bool g_throw = false; // failing functions throw (otherwise return an error)
std::string g_what;   // exception which is expected to be reported
bool hit() { if (g_left < 0) return false; if (g_left-- > 0) return false; g_fired = true; g_left = -1; return true; }
bool g_plain = false; // the failure was one of plain memory: what would like more memory than it needs may go on without
bool fault_alloc() { if (!hit()) return false; g_what = "bad_alloc"; g_plain = true; return true; }
int fault_fn(fn f, const probe&) {
    if (f == f_alloc) { if (!hit()) return 0; g_what = "bad_alloc"; return 2; }
    if (f != f_init && f != f_copy_init && f != f_copy_asgn) return 0;
    if (!hit()) return 0;
    g_what = g_throw ? "std_exception" : "object_error";
    return g_throw ? 2 : 77;
}
void plan(int k) { g_left = k; g_fired = g_plain = false; g_what.clear(); }

struct mobj { bool exists = false; list l; std::map<int, int> v; };
enum { NM = 5 };

struct world {
    world_guard wg;
    res dres{"domain"}, ores{"objects"};
    mixalloc ma{"mixin"};
    std::deque<probe> ps;
    feature_info feat = dnmx_make_feature_info();
    mutation_rule_info rule = mutation_rule_info{};
    std::unique_ptr<domain> d;
    std::unique_ptr<object> o[2];
    mobj m[2];
    world(bool canonical, bool with_rule, bool triv = false) {
        domain_settings s{}; s.canonicalize_types = canonical;
        d = std::make_unique<domain>("d", s, 0, nullptr, allocator(&dres));
        feat.name = dnmx_sv::from_std("feat"); feat.allow_clashes = true;
        ps.emplace_back("a", 8, 8).feature(feat, nullptr);
        ps.emplace_back("b", 12, 4).external();
        ps.emplace_back("c", 3, 1).uses(ma).feature(feat, nullptr);
        ps.emplace_back("d", 32, 32);
        ps.emplace_back("e", 4, 4).no_move();
        if (triv) { ps[1].trivial(); ps[2].trivial(); }
        for (auto& p : ps) d->register_mixin(p.info);
        if (with_rule) {
            // d needs b
            rule.name = dnmx_sv::from_std("d needs b");
            rule.user_data = reinterpret_cast<uintptr_t>(this);
            rule.apply = [](dnmx_type_mutation_handle h, uintptr_t u) -> dnmx_error_return_t {
                auto& w = *reinterpret_cast<world*>(u);
                if (hit()) { g_what = g_throw ? "std_exception" : "type_error"; if (g_throw) throw std::runtime_error("planned failure"); return 5; }
                auto t = type_mutation::from_c_handle(h);
                if (t->has(w.mi(3))) t->add_if_lacking(w.mi(1));
                return 0;
            };
            d->add_mutation_rule(rule);
        }
        has_rule = with_rule; canon = canonical;
        dres.fault = ores.fault = ma.r.fault = def_res().fault = fault_alloc;
        ma.r.fault = nullptr; // counted by the allocator itself
        T().fault = fault_fn;
    }
    bool has_rule, canon;
    ~world() {
        g_left = -1;
        o[0].reset(); o[1].reset(); d.reset(); ma.r.check_empty("end");
        T().fault = nullptr; def_res().fault = nullptr;
    }
    const mixin_info& mi(int i) { return ps[size_t(i)].info; }
    infos mis(const list& l) { infos v; for (int i : l) v.push_back(&mi(i)); return v; }
    list expected(list l) {
        if (has_rule && has(l, 3) && !has(l, 1)) l.push_back(1);
        if (canon) std::sort(l.begin(), l.end());
        return l;
    }
    // ---- state
    struct snap { const type* t; std::vector<const void*> addr; };
    snap take(int k) { snap s{}; if (o[k]) { s.t = &o[k]->get_type(); for (mixin_index_t i = 0; i < s.t->num_mixins(); ++i) s.addr.push_back(o[k]->get_at(i)); } return s; }
    // model agrees with the objects; lax: values which may be from another object
    void check(const char* when, const mobj* lax = nullptr, int lax_obj = -1) {
        g_left = -1;
        block_set b; size_t n = 0;
        for (int k = 0; k < 2; ++k) {
            MC_EQ(bool(o[k]), m[k].exists, when << ": object exists");
            if (!o[k]) continue;
            auto& x = *o[k]; auto& r = m[k];
            MC_CHECK(type_mixins(x.get_type()) == mis(r.l), when << ": type of object " << k << " is " << names(type_mixins(x.get_type())) << " expected " << show(r.l));
            check_layout(x, ores, b);
            for (int i : r.l) {
                ++n;
                int v = probe::alive(&mi(i), x.get(mi(i)), when).val;
                if (k == lax_obj && lax->v.count(i) && v == lax->v.at(i)) { r.v[i] = v; continue; }
                MC_EQ(v, r.v.at(i), when << ": value of mixin " << char('a' + i) << " of object " << k);
            }
        }
        MC_EQ(n, T().live.size(), when << ": live mixins");
        MC_EQ(b.blocks.size(), ores.live.size() + ma.r.live.size(), when << ": blocks in use");
        MC_CHECK(def_res().live.empty(), when << ": temporary memory isn't returned");
        // the domain: every query leads to a type of the domain which is the right one
        std::set<const type*> ts; std::map<const type*, size_t> objs;
        for (int k = 0; k < 2; ++k) if (o[k] && !m[k].l.empty()) ++objs[&o[k]->get_type()];
        {
            domain_traverse tr(*d);
            tr.traverse_types([&](const type& t) { ts.insert(&t); MC_EQ(t.num_objects(), objs[&t], when << ": objects of type " << names(type_mixins(t))); });
            tr.traverse_type_queries([&](itlib::span<const mixin_info* const> q, const type& t) {
                MC_CHECK(ts.count(&t) || &t == &d->get_empty_type(), when << ": a stored query leads to a type which isn't in the domain");
                list l; for (auto i : q) for (int j = 0; j < NM; ++j) if (&mi(j) == i) l.push_back(j);
                MC_CHECK(type_mixins(t) == mis(expected(l)), when << ": a stored query leads to another type");
            });
            size_t feats = 0; tr.traverse_features([&](const feature_info&) { ++feats; });
            MC_EQ(feats, size_t(1), when << ": features");
        }
        for (auto& e : objs) MC_CHECK(ts.count(e.first), when << ": the type of an object isn't in the domain");
        MC_EQ(ts.size(), d->num_types(), when << ": types");
    }

    void to(mobj& x, const list& l, int& next) {
        for (auto it = x.v.begin(); it != x.v.end();) if (has(l, it->first)) ++it; else it = x.v.erase(it);
        for (int i : l) if (!x.v.count(i)) x.v[i] = next++;
        x.l = l; x.exists = true;
    }
};

enum { op_create, op_create_move, op_reset, op_mutate, op_gradual, op_mutate_to, op_stepwise, op_copy, op_copy_asgn, op_copy_from, op_copy_match, op_type, op_type_mut, op_count };
const char* op_names[] = {"create", "create and move to", "reset_type", "mutate", "gradual mutation", "mutate_to", "stepwise mutation", "copy", "copy and move to", "copy_from", "copy_matching_from", "type by list", "type by mutation"};

struct op { int k; list l; };

bool valid(world& w, const op& p) {
    bool x = bool(w.o[0]), y = bool(w.o[1]);
    switch (p.k) {
    case op_create: case op_type: case op_type_mut: return true;
    case op_create_move: case op_reset: case op_mutate: case op_gradual: case op_mutate_to: case op_stepwise: return x;
    default: return x && y;
    }
}

// operation of object 0 (source of copies is object 1) on the real thing
void apply(world& w, const op& p) {
    auto& x = w.o[0]; auto& y = w.o[1];
    auto ty = [&]() -> const type& { auto v = w.mis(p.l); return w.d->get_type(v); };
    auto f = [](int v) { return [v](init_new_args a) { if (hit()) { g_what = "std_exception"; throw std::runtime_error("planned failure"); } T().born(a.info, a.mixin_buf, v); }; };
    switch (p.k) {
    case op_create: x = std::make_unique<object>(ty(), allocator(&w.ores)); break;
    case op_create_move: *x = object(ty(), allocator(&w.ores)); break;
    case op_reset: x->reset_type(ty()); break;
    case op_mutate: {
        // towards the list: remove a, b, c and add what is missing of them (by info and name)
        bool l[NM], h[NM]; for (int i = 0; i < NM; ++i) { l[i] = has(p.l, i); h[i] = x->has(w.mi(i)); }
        struct edit {
            world& w; int i; bool l, h;
            void apply_to_type_mutation(type_mutation& t) {
                if (l && !h) { if (i & 1) t.add(w.mi(i).name.to_std()); else t.add(w.mi(i)); }
                if (!l && h) { if (i & 1) t.remove(w.mi(i).name.to_std()); else t.remove(w.mi(i)); }
            }
            object_mutate_op* to_obj_mutate(const object&) { return nullptr; }
        };
        mutate(*x, edit{w, 0, l[0], h[0]}, edit{w, 1, l[1], h[1]}, edit{w, 2, l[2], h[2]}, edit{w, 3, l[3], h[3]}, edit{w, 4, l[4], h[4]});
        break;
    }
    case op_gradual: {
        auto g = mutate(*x);
        for (int i = 0; i < NM; ++i) {
            if (has(p.l, i)) g.add_if_lacking(w.mi(i)); else g.remove(w.mi(i).name.to_std());
        }
        if (p.l.size() & 1) g.apply();
        break;
    }
    case op_mutate_to: mutate_to(*x, ty(), construct(w.mi(3), f(8)), construct("b", f(7)), construct("nothing", f(6)), construct(w.mi(0), f(5))); break;
    case op_stepwise: {
        auto& t = ty();
        object_mutation mut(*x, t);
        mut.update_next_mixin(f(11), [](update_common_args) { if (hit()) { g_what = "std_exception"; throw std::runtime_error("planned failure"); } });
        if (t.num_mixins() > 1) mut.update_at(mixin_index_t(t.num_mixins() - 1), f(12), [](update_common_args) { if (hit()) { g_what = "std_exception"; throw std::runtime_error("planned failure"); } });
        break;
    }
    case op_copy: x = std::make_unique<object>(y->copy(allocator(&w.ores))); break;
    case op_copy_asgn: *x = y->copy(allocator(&w.ores)); break;
    case op_copy_from: x->copy_from(*y); break;
    case op_copy_match: x->copy_matching_from(*y); break;
    case op_type: ty(); break;
    case op_type_mut: {
        type_mutation t(x ? x->get_type() : w.d->get_empty_type(), allocator(&w.dres));
        for (int i = 0; i < NM; ++i) if (t.has(w.mi(i))) t.remove(w.mi(i));
        for (int i : p.l) t.add(w.mi(i).name.to_std());
        t.dedup();
        auto& r = w.d->get_type(std::move(t));
        MC_CHECK(type_mixins(r) == w.mis(w.expected(p.l)), "type by mutation");
        break;
    }
    }
}
// ... and in the model; values of default constructed mixins are taken from the object
void effect(world& w, const op& p) {
    auto& x = w.m[0]; auto& y = w.m[1];
    auto to = [&](const list& l, std::map<int, int> over = {}, bool fresh = false) {
        if (fresh) { x.v.clear(); x.l.clear(); }
        x.exists = true;
        for (auto it = x.v.begin(); it != x.v.end();) if (has(l, it->first)) ++it; else it = x.v.erase(it);
        for (int i : l) {
            if (x.v.count(i)) continue;
            int v = probe::alive(&w.mi(i), w.o[0]->get(w.mi(i)), "effect").val;
            if (over.count(i)) MC_EQ(v, over[i], "overridden initialization of " << char('a' + i)); else MC_CHECK(v >= 100, "default initialization of " << char('a' + i));
            x.v[i] = v;
        }
        x.l = l;
    };
    list old = x.l;
    switch (p.k) {
    case op_create: case op_create_move: MC_CHECK(type_mixins(w.o[0]->get_type()) == w.mis(w.expected(p.l)), "type after " << op_names[p.k]); to(w.expected(p.l), {}, true); break;
    case op_reset: case op_mutate_to: case op_stepwise: {
        auto l = w.expected(p.l);
        MC_CHECK(type_mixins(w.o[0]->get_type()) == w.mis(l), "type after " << op_names[p.k]);
        std::map<int, int> over;
        if (p.k == op_mutate_to) over = {{3, 8}, {1, 7}, {0, 5}};
        if (p.k == op_stepwise && !l.empty()) { if (l.size() > 1) over[l.back()] = 12; over[l[0]] = 11; }
        to(l, over);
        break;
    }
    case op_mutate: case op_gradual: {
        list l; for (int i : old) if (has(p.l, i)) l.push_back(i);
        for (int i = 0; i < NM; ++i) if (has(p.l, i) && !has(l, i)) l.push_back(i);
        l = w.expected(l);
        MC_CHECK(type_mixins(w.o[0]->get_type()) == w.mis(l), "type after " << op_names[p.k]);
        to(l);
        break;
    }
    case op_copy: case op_copy_asgn: case op_copy_from: x = y; break;
    case op_copy_match: for (int i : x.l) if (has(y.l, i)) x.v[i] = y.v[i]; break;
    }
}

// returns the number of failure points
int attempt(world& w, const op& p, int k) {
    bool lax = p.k == op_copy_from || p.k == op_copy_match;
    auto s0 = w.take(0), s1 = w.take(1);
    plan(k);
    auto out = outcome_of([&] { apply(w, p); });
    bool fired = g_fired; auto what = g_what; g_left = -1;
    MC_STEP(op_names[p.k] << ' ' << show(p.l) << (k >= 0 ? MC_STR(" with failure at point " << k) : std::string()) << (fired ? "" : " (no such point)") << " -> " << (out.empty() ? "done" : out));
    bool without = fired && g_plain && out.empty();
    if (fired && !without) {
        MC_EQ(out, what, "report of the failure");
        auto e0 = w.take(0), e1 = w.take(1);
        MC_CHECK(e0.t == s0.t && e0.addr == s0.addr, "the failed operation changed its object");
        MC_CHECK(e1.t == s1.t && e1.addr == s1.addr, "the failed operation changed its source");
        w.check("after failure", lax ? &w.m[1] : nullptr, lax ? 0 : -1);
        return 1;
    }
    MC_EQ(out, std::string(), "the operation failed by itself");
    effect(w, p);
    w.check("after success");
    return without ? 2 : 0;
}

void make(world& w, int k, const list& l) {
    g_left = -1;
    auto v = w.mis(l);
    w.o[k] = std::make_unique<object>(w.d->get_type(v), allocator(&w.ores));
    w.m[k] = {}; w.m[k].exists = true; w.m[k].l = w.expected(l);
    for (int i : w.m[k].l) w.m[k].v[i] = probe::alive(&w.mi(i), w.o[k]->get(w.mi(i)), "make").val;
}

bool movable(const list& from, const list& to) { return !(has(from, 4) && has(to, 4)); } // an internal mixin which can't be moved isn't to be kept

std::vector<list> lists(bool deep) {
    std::vector<list> L = {{}, {0}, {1}, {2}, {0, 1}, {2, 0}, {1, 2}, {3}, {0, 3, 1}, {3, 2, 0}, {2, 1, 3, 0}, {4, 2}};
    if (deep) { L.push_back({1, 0}); L.push_back({1, 2, 0}); L.push_back({0, 4}); L.push_back({4, 1, 3}); L.push_back({3, 1}); L.push_back({2, 3, 1, 4, 0}); }
    return L;
}

// one operation, all of its failure points, then again without failures
void single(bool second_failure) {
    auto L = lists(mc::thorough);
    int n = int(L.size());
    int k = mc::choose(op_count);
    int dom = mc::choose(4); // plain, with a rule, canonical with a rule, mixins without destroy functions
    g_throw = mc::flip();
    bool copies = k >= op_copy && k <= op_copy_match;
    bool fresh = k == op_create && mc::flip();
    bool warm = mc::flip(); // types are already there
    int src = fresh ? 0 : mc::choose(n), dst = mc::choose(n);
    if (mc::pruned()) return;
    op p{k, L[size_t(dst)]};
    if (k == op_gradual || k == op_mutate) std::sort(p.l.begin(), p.l.end());
    if (!fresh && !movable(L[size_t(src)], L[size_t(dst)]) && k != op_create && k != op_create_move && k != op_copy && k != op_copy_asgn) return;
    auto init = [&](world& w) {
        if (!fresh) make(w, 0, L[size_t(src)]);
        if (copies) make(w, 1, L[size_t(dst)]);
        if (warm) { auto v = w.mis(p.l); w.d->get_type(v); }
    };
    for (int i = 0;; ++i) {
        int more = 0;
        for (int j = -1; j < (second_failure ? 1000 : 0); ++j) {
            world w(dom == 2, dom == 1 || dom == 2, dom == 3);
            init(w);
            MC_LOG("--- object 0: " << (fresh ? std::string("none") : show(w.m[0].l)));
            w.check("at first");
            int r = attempt(w, p, i);
            if (!r) { more = -1; break; }
            if (r == 2 && k == op_stepwise) break; // isn't to be done again
            // j-th failure of the repeated operation
            if (j >= 0 && !attempt(w, p, j)) break;
            attempt(w, p, -1);
            // ... and once more, with everything already there
            if (k != op_stepwise) attempt(w, p, -1);
        }
        mc::outcome(MC_STR(k << ' ' << dom << ' ' << i << more << g_what));
        if (more < 0) { MC_CHECK(i < 400, "the operation never succeeds"); return; }
    }
}

// two different operations, each may fail at any point
void pairs() {
    std::vector<list> L = {{}, {0, 1}, {2, 3, 0}};
    if (mc::thorough) { L.push_back({1}); L.push_back({3, 1, 2}); }
    int n = int(L.size());
    int k1 = mc::choose(op_count), k2 = mc::choose(op_count);
    g_throw = mc::flip();
    int src = mc::choose(n), other = mc::choose(n), t1 = mc::choose(n), t2 = mc::choose(n);
    if (mc::pruned()) return;
    auto copies = [](int k) { return k >= op_copy && k <= op_copy_match; };
    if (copies(k1) && t1 || copies(k2) && t2) return; // the list isn't used
    op a{k1, L[size_t(t1)]}, b{k2, L[size_t(t2)]};
    for (auto p : {&a, &b}) if (p->k == op_gradual || p->k == op_mutate) std::sort(p->l.begin(), p->l.end());
    for (int i = 0;; ++i) {
        int r = 0;
        for (int j = 0;; ++j) {
            world w(false, true);
            make(w, 0, L[size_t(src)]); make(w, 1, L[size_t(other)]);
            r = attempt(w, a, i);
            int q = attempt(w, b, j);
            attempt(w, a, -1);
            attempt(w, b, -1);
            if (!q) break;
        }
        if (!r) return;
    }
}

// domains, registrations, rules
void registrations() {
    bool canonical = mc::flip();
    int n0 = mc::choose(3), n1 = mc::choose(4), what = mc::choose(7);
    if (mc::pruned()) return;
    g_throw = true;
    for (int i = 0;; ++i) {
        world_guard wg;
        res dres{"domain"};
        dres.fault = def_res().fault = nullptr;
        std::unique_ptr<domain> d;
        domain_settings s{}; s.canonicalize_types = canonical;
        std::deque<feature_info> fs; std::deque<probe> ps; std::deque<mutation_rule_info> rs; std::deque<type_class> tcs;
        std::deque<std::string> ns;
        auto nm = [&](std::string n) { ns.push_back(n); return dnmx_sv::from_std(ns.back()); };
        for (int k = 0; k < 4; ++k) { fs.emplace_back(dnmx_make_feature_info()); fs.back().name = nm(MC_STR("f" << k)); }
        for (int k = 0; k < 4; ++k) { ps.emplace_back(MC_STR("m" << k)); for (int q = 0; q <= k; ++q) ps.back().feature(fs[size_t(q)], nullptr); }
        for (int k = 0; k < 4; ++k) {
            rs.emplace_back(mutation_rule_info{}); rs.back().name = nm(MC_STR("r" << k));
            rs.back().apply = [](dnmx_type_mutation_handle, uintptr_t) -> dnmx_error_return_t { return 0; };
            tcs.emplace_back(); tcs.back().name = nm(MC_STR("t" << k)); tcs.back().matches = [](dnmx_type_handle) noexcept { return true; };
        }
        bool created = false; // of a domain
        auto create = [&] { d = std::make_unique<domain>("d", s, 0, nullptr, allocator(&dres)); };
        auto doit = [&](int k) {
            switch (what) {
            case 0: create(); break;
            case 1: d->register_feature(fs[size_t(k)]); break;
            case 2: d->register_mixin(ps[size_t(k)].info); break;
            case 3: d->add_mutation_rule(rs[size_t(k)]); break;
            case 4: d->register_type_class(tcs[size_t(k)]); break;
            case 5: { const mixin_info* v[] = {&ps[0].info}; d->get_type(itlib::make_span(v, 1)); break; }
            case 6: { d->register_mixin(ps[3].info); d->register_mixin(ps[2].info); break; }
            }
        };
        auto describe = [&] {
            if (!d) return MC_STR("none " << dres.live.size());
            std::string r;
            domain_traverse t(*d);
            t.traverse_mixins([&](const mixin_info& m) { r += MC_STR(m.name.to_std() << '=' << m.id.i << ' '); });
            if (what != 2 && what != 6) t.traverse_features([&](const feature_info& m) { r += MC_STR(m.name.to_std() << '=' << m.id.i << ' '); });
            t.traverse_mutation_rules([&](const mutation_rule_info& m, uint32_t n) { r += MC_STR(m.name.to_std() << '*' << n << ' '); });
            t.traverse_type_classes([&](const type_class& m) { r += MC_STR(m.name.to_std() << ' '); });
            t.traverse_types([&](const type& m) { r += names(type_mixins(m)) + ' '; });
            for (auto& p : ps) r += MC_STR(p.info.id.i << (p.info.dom ? '+' : '-'));
            return r;
        };
        if (what) create();
        if (what && what < 5) for (int k = 0; k < n0; ++k) doit(k);
        if (what == 5) { d->register_mixin(ps[0].info); }
        (void)created;
        if (n1 >= 1 && what == 1) { d->register_feature(fs[3]); if (n0 && n1 == 2) d->unregister_feature(fs[0]); if (n0 == 2 && n1 == 3) d->unregister_feature(fs[1]); }
        if (n1 >= 1 && what == 2) { d->register_mixin(ps[3].info); if (n0 && n1 == 2) d->unregister_mixin(ps[0].info); if (n0 == 2 && n1 == 3) d->unregister_mixin(ps[1].info); }
        if (n1 >= 1 && what == 3) { d->add_mutation_rule(rs[3]); if (n0 && n1 == 2) d->remove_mutation_rule(rs[0]); if (n0 == 2 && n1 == 3) d->add_mutation_rule(rs[2]); }
        if (n1 >= 1 && what == 4) { d->register_type_class(tcs[3]); if (n0 && n1 == 2) d->unregister_type_class(tcs[0]); if (n0 == 2 && n1 == 3) d->unregister_type_class(tcs[1]); }
        auto before = describe();
        dres.fault = def_res().fault = fault_alloc;
        plan(i);
        auto out = outcome_of([&] { doit(2); });
        bool fired = g_fired; g_left = -1;
        dres.fault = def_res().fault = nullptr;
        MC_STEP("registration " << what << " failure at " << i << " -> " << out);
        if (fired && out.size()) { // without an error it has got by without the memory; then everything is as usual: see below
            MC_EQ(out, std::string("bad_alloc"), "report of the failure");
            if (what == 6) {
                // two registrations of which the first may have succeeded
                if (ps[3].info.dom) { MC_CHECK(ps[3].info.id != invalid_mixin_id && d->get_mixin_info("m3") == &ps[3].info && !d->get_mixin_info("m2"), "failed registration"); d->unregister_mixin(ps[3].info); }
                else MC_CHECK(ps[3].info.id == invalid_mixin_id && !d->get_mixin_info("m3"), "failed registration");
            }
            else if (what == 5) {}
            else MC_EQ(describe(), before, "the failed registration changed the domain");
            doit(2);
        }
        else MC_EQ(out, std::string(), "the registration failed by itself");
        // everything works
        auto after = describe();
        MC_LOG(after);
        if (what == 2) { MC_CHECK(d->get_mixin_info("m2") == &ps[2].info && ps[2].info.dom == d->to_c_hanlde(), "registered mixin"); for (int q = 0; q <= 2; ++q) MC_CHECK(d->get_feature_info(MC_STR("f" << q)) == &fs[size_t(q)], "its features"); }
        if (what == 4) MC_CHECK(d->get_type_class("t2") == &tcs[2], "registered type class");
        if (what == 1) MC_CHECK(d->get_feature_info("f2") == &fs[2], "registered feature");
        mc::outcome(MC_STR(what << i << out));
        // the same without the failure gives the same result
        static thread_local std::map<std::string, std::string> ref;
        auto key = MC_STR(canonical << n0 << n1 << what);
        if (i == 0) ref[key] = after; else MC_EQ(after, ref[key], "result of the repeated registration");
        d.reset();
        if (!fired) return;
    }
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        mc::section("one-operation/all-failure-points", [] { single(false); });
        mc::section("two-failures/all-failure-points", [] { if (mc::thorough) single(true); else pairs(); });
        if (mc::thorough) mc::section("pairs/all-failure-points", [] { pairs(); });
        mc::section("registrations/all-failure-points", [] { registrations(); });
        mc::section("many-mixins/all-operations", [] { wide::object_histories(mc::pick(129, 1025)); });
    });
}
