// Scale, continued: many rules, edits, initializations, elements of a domain (see wide.hpp).
#pragma once
#include "wide.hpp"
#include <dynamix/mutate.hpp>
#include <dynamix/dbg_dmp.hpp>
#include <dynamix/type_class.hpp>
#include <dnmx/domain.h>
#include <dnmx/mutate.h>
#include <dnmx/object.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>

namespace wide {
// ---------------------------------------------------------------- many rules
// Rule k adds mixin k + 1 if mixin k is there ("chain"), or only logs. Rules are known by their position in the order of application.
struct rules_world {
    world_guard wg;
    std::deque<probe> ps;
    std::deque<std::string> nms;
    std::deque<mutation_rule_info> rs;   // in the order of application
    std::vector<char> active, chain;
    std::unique_ptr<domain> d;
    std::vector<int> log;
    int n;
    static rules_world*& self() { static rules_world* w; return w; }
    static dnmx_error_return_t apply(dnmx_type_mutation_handle h, uintptr_t k) {
        auto& w = *self(); w.log.push_back(int(k));
        if (!w.chain[k]) return 0;
        auto& m = *type_mutation::from_c_handle(h);
        if (m.has(w.ps[k].info)) m.add_if_lacking(w.ps[k + 1].info);
        return 0;
    }
    rules_world(int n, int style, int prio) : n(n) {
        self() = this;
        // the order of application: by priority, then by name
        std::vector<std::pair<int, std::string>> o;
        for (int i = 0; i < n; ++i) o.push_back({prio == 0 ? 0 : prio == 1 ? i % 3 : prio == 2 ? -i : (i % 2 ? INT32_MAX : INT32_MIN), name(i, style)});
        std::sort(o.begin(), o.end());
        for (int i = 0; i < n; ++i) { nms.push_back(o[size_t(i)].second); rs.push_back({dnmx_sv::from_std(nms.back()), apply, uintptr_t(i), o[size_t(i)].first}); }
        active.assign(size_t(n), 0); chain.assign(size_t(n), 1);
        d = std::make_unique<domain>("d");
        for (int i = 0; i <= n; ++i) ps.emplace_back(name(i, 0), 1, 1);
        for (auto& p : ps) d->register_mixin(p.info);
    }
    ~rules_world() { d.reset(); self() = nullptr; }
    // what a request for mixin i gives: a chain goes on while rules are there
    infos expected(int i) { infos l{&ps[size_t(i)].info}; while (i < n && active[size_t(i)] && chain[size_t(i)]) l.push_back(&ps[size_t(++i)].info); return l; }
    std::vector<int> order() { std::vector<int> o; for (int i = 0; i < n; ++i) if (active[size_t(i)]) o.push_back(i); return o; }
    // fresh: this was never requested before
    void request(int i, bool fresh, const char* what) {
        log.clear();
        auto& t = d->get_type(infos{&ps[size_t(i)].info});
        auto e = expected(i);
        MC_CHECK(type_mixins(t) == e, what << ": request of " << i << " gave " << t.num_mixins() << " mixins, expected " << e.size());
        auto o = order();
        if (fresh || !log.empty()) MC_CHECK(log.size() >= o.size() && std::equal(o.begin(), o.end(), log.begin()), what << ": order of application of the rules");
        // every pass is in order
        for (size_t k = 1; k < log.size(); ++k) MC_CHECK(log[k - 1] < log[k] || log[k] == o.front(), what << ": order of application of the rules in a later pass");
    }
    void counts(const std::map<int, uint32_t>& more, const char* what) {
        size_t e = 0, seen = 0; for (char a : active) e += a != 0;
        MC_EQ(d->num_mutation_rules(), e, what << ": number of rules");
        std::map<const mutation_rule_info*, uint32_t> m;
        domain_traverse(*d).traverse_mutation_rules([&](const mutation_rule_info& i, uint32_t c) { m[&i] = c; ++seen; });
        MC_EQ(seen, e, what << ": rules in a traversal");
        for (int i = 0; i < n; ++i) { auto f = more.find(i); MC_EQ(m.count(&rs[size_t(i)]) ? m[&rs[size_t(i)]] : 0u, active[size_t(i)] ? (f == more.end() ? 1u : f->second) : 0u, what << ": uses of rule " << i); }
    }
};
inline void rules(int max) {
    int n = scale(max), style = mc::choose(name_styles), prio = mc::choose(4), how = mc::choose(arrangements), p = position(n);
    if (mc::pruned()) return;
    MC_STEP(n << " rules, " << style_name(style) << ", priorities " << prio << ", added in arrangement " << how << ", position " << p);
    mc::outcome(MC_STR(n << ' ' << style << ' ' << prio << ' ' << how << ' ' << p));
    rules_world w(n, style, prio);
    if (n > 33) for (int i = 0; i < n; ++i) w.chain[size_t(i)] = std::abs(i - p) < 9; // long types are not the point
    auto& d = *w.d;
    auto q = (p + n / 2) % n;
    for (int i : arrange(n, how)) { d.add_mutation_rule(w.rs[size_t(i)]); w.active[size_t(i)] = 1; }
    w.counts({}, "added");
    std::set<int> asked; // the order of requests: from the end, so that no other request gives the same list
    for (int i : positions(n + 1)) if (asked.insert(i).second) w.request(i, true, "added");
    for (int i : asked) w.request(i, false, "again");
    // p is added once more, and removed: it's still there, nothing changes
    d.add_mutation_rule(w.rs[size_t(p)]); w.counts({{p, 2}}, "p twice");
    d.remove_mutation_rule(w.rs[size_t(p)]); w.counts({}, "p once");
    d.remove_mutation_rule(w.rs[size_t(p)]); w.active[size_t(p)] = 0; w.counts({}, "without p");
    for (int i : asked) w.request(i, false, "without p");
    d.remove_mutation_rule(w.rs[size_t(p)]); w.counts({}, "without p: removed again");
    if (q != p) {
        d.remove_mutation_rule(w.rs[size_t(q)]); w.active[size_t(q)] = 0; w.counts({}, "without p and q");
        w.request(q, false, "without p and q"); w.request(p, false, "without p and q"); w.request(p, false, "without p and q");
        d.add_mutation_rule(w.rs[size_t(q)]); w.active[size_t(q)] = 1;
    }
    d.add_mutation_rule(w.rs[size_t(p)]); w.active[size_t(p)] = 1; w.counts({}, "p is back");
    for (int i : asked) w.request(i, false, "p is back");
    for (int i : arrange(n, (how + 1) % arrangements)) if (i != p) { d.remove_mutation_rule(w.rs[size_t(i)]); w.active[size_t(i)] = 0; }
    w.counts({}, "only p"); w.request(p, false, "only p"); w.request(p + 1, false, "only p");
    d.remove_mutation_rule(w.rs[size_t(p)]); w.active[size_t(p)] = 0; w.counts({}, "none");
    w.request(p, false, "none"); MC_CHECK(w.log.empty(), "no rules");
}

// ---------------------------------------------------------------- edits of long lists
enum { edits = 12 };
inline void type_edits(int max) {
    int n = scale(max), p = position(n), op = mc::choose(edits), how = mc::choose(3); // 0: by description, 1: by name, 2: C
    if (mc::pruned()) return;
    MC_STEP("edit " << op << " at " << p << " of " << n << " mixins " << (how == 0 ? "by description" : how == 1 ? "by name" : "in C"));
    mc::outcome(MC_STR(n << ' ' << p << ' ' << op << ' ' << how));
    world_guard wg;
    std::deque<probe> ps; domain d("d");
    feature_info fi = dnmx_make_feature_info(), no = dnmx_make_feature_info(); fi.name = dnmx_make_sv_lit("f"); no.name = dnmx_make_sv_lit("no"); d.register_feature(no); d.register_feature(fi);
    for (int i = 0; i <= n; ++i) { auto& x = ps.emplace_back(name(i, 0), 1, 1); if (i == p) x.feature(fi, &ps); d.register_mixin(x.info); }
    auto mi = [&](int i) -> const mixin_info& { return ps[size_t(i)].info; };
    infos e; for (int i = 0; i < n; ++i) e.push_back(&mi(i));
    auto& base = d.get_type(e);
    bool twice = op >= 8; // lists with duplicates
    type_mutation m = how == 2 ? type_mutation(d) : type_mutation(base);
    dnmx_type_mutation_handle h = nullptr;
    struct guard { dnmx_type_mutation_handle h = nullptr; ~guard() { if (h) dnmx_destroy_unused_type_mutation(h); } } keep;
    if (how == 2) { h = dnmx_create_type_mutation_from_type(&base); keep.h = h; MC_CHECK(h, "creation"); }
    auto list = [&]() -> infos {
        if (how != 2) return infos(m.mixins.begin(), m.mixins.end());
        dnmx_mixin_index_t c = 0; auto x = dnmx_type_mutation_get_mixins(h, &c); return infos(x, x + c);
    };
    MC_CHECK(list() == e, "mutation from a type");
    auto& x = mi(p); auto nm = x.name.to_std();
    auto& out = mi(n); auto onm = out.name.to_std();
    auto rem = [&](const mixin_info& i) -> bool { return how == 0 ? m.remove(i) : how == 1 ? m.remove(i.name.to_std()) != nullptr : dnmx_type_mutation_remove(h, &i); };
    auto add = [&](const mixin_info& i) { if (how == 0) m.add(i); else if (how == 1) MC_CHECK(&m.add(i.name.to_std()) == &i, "add"); else MC_CHECK(dnmx_type_mutation_add(h, &i), "add"); };
    auto lack = [&](const mixin_info& i) -> bool { return how == 0 ? m.add_if_lacking(i) : how == 1 ? m.add_if_lacking(i.name.to_std()) != nullptr : dnmx_type_mutation_add_if_lacking(h, &i); };
    auto back = [&](const mixin_info& i) { if (how == 0) m.to_back(i); else if (how == 1) m.to_back(i.name.to_std()); else MC_CHECK(dnmx_type_mutation_to_back(h, &i), "to back"); };
    auto dedup = [&] { if (how == 2) dnmx_type_mutation_dedup(h); else m.dedup(); };
    auto has = [&](const mixin_info& i) { bool a = how == 2 ? dnmx_type_mutation_has(h, &i) : m.has(i), b = how == 2 ? dnmx_type_mutation_has_by_name(h, i.name) == &i : m.has(i.name.to_std()) == &i; MC_EQ(a, b, "has"); return a; };
    auto take = [](infos& l, const mixin_info* i) { auto f = std::find(l.begin(), l.end(), i); if (f == l.end()) return false; l.erase(f); return true; };
    (void)nm; (void)onm;
    switch (op) {
    case 0: MC_CHECK(rem(x), "remove"); take(e, &x); MC_CHECK(list() == e, "remove"); MC_CHECK(!has(x), "removed"); MC_CHECK(!rem(x), "remove again"); break;
    case 1: back(x); take(e, &x); e.push_back(&x); break;
    case 2: MC_CHECK(!lack(x), "add a mixin which is there"); MC_CHECK(has(x), "has"); MC_CHECK(!has(out), "has"); MC_CHECK(lack(out), "add if lacking"); e.push_back(&out); MC_CHECK(has(out), "has"); MC_CHECK(!lack(out), "add if lacking again"); break;
    case 3: MC_CHECK(!rem(out), "remove a mixin which isn't there"); break;
    case 4: dedup(); break;
    case 5: // all up to p are removed
        for (int i = 0; i <= p; ++i) { MC_CHECK(rem(mi(i)), "remove " << i); take(e, &mi(i)); MC_EQ(list().size(), e.size(), "remove"); } break;
    case 6: // from the end to p
        for (int i = n; i-- > p;) { MC_CHECK(rem(mi(i)), "remove " << i); take(e, &mi(i)); MC_EQ(list().size(), e.size(), "remove"); } break;
    case 7: for (int i = 0; i <= p; ++i) { back(mi(i)); take(e, &mi(i)); e.push_back(&mi(i)); } break;
    case 8: add(x); e.push_back(&x); MC_CHECK(list() == e, "add again"); dedup(); take(e, &x); break; // the latter remains
    case 9: add(x); e.push_back(&x); MC_CHECK(rem(x), "removes the first"); take(e, &x); MC_CHECK(list() == e, "removes the first"); MC_CHECK(has(x), "the second remains"); twice = false; break;
    case 10: { // all twice, and p three times
        infos old = e; for (int i = n; i-- > 0;) { add(mi(i)); e.push_back(&mi(i)); } add(x); e.push_back(&x); MC_CHECK(list() == e, "all twice");
        dedup(); infos r; for (size_t i = 0; i < e.size(); ++i) if (std::find(e.begin() + long(i) + 1, e.end(), e[i]) == e.end()) r.push_back(e[i]); e = r; break; }
    case 11: { // all up to p twice, then p moves to the back
        for (int i = 0; i <= p; ++i) { add(mi(i)); e.push_back(&mi(i)); }
        dedup(); infos r; for (size_t i = 0; i < e.size(); ++i) if (std::find(e.begin() + long(i) + 1, e.end(), e[i]) == e.end()) r.push_back(e[i]); e = r; break; }
    }
    (void)twice;
    MC_CHECK(list() == e, "list after the edit: " << (n < 20 ? names(list()) : "") << " expected " << (n < 20 ? names(e) : ""));
    for (int i : positions(n)) MC_EQ(has(mi(i)), std::find(e.begin(), e.end(), &mi(i)) != e.end(), "has " << i);
    bool imp = std::find(e.begin(), e.end(), &x) != e.end();
    if (how == 2) {
        MC_EQ(dnmx_type_mutation_implements_strong(h, &fi), imp, "implements"); MC_CHECK((dnmx_type_mutation_implements_strong_by_name(h, fi.name) == &fi) == imp, "implements by name"); MC_CHECK(!dnmx_type_mutation_implements_strong(h, &no), "implements");
        keep.h = nullptr;
        auto t = dnmx_get_type(d.to_c_hanlde(), &h); MC_CHECK(t && type_mixins(*type::from_c_handle(t)) == e, "type of the mutation");
    }
    else {
        MC_EQ(m.implements_strong(fi), imp, "implements"); MC_CHECK((m.implements_strong("f") == &fi) == imp, "implements by name"); MC_CHECK(!m.implements_strong(no) && !m.implements(no), "implements"); MC_EQ(m.implements(fi), imp, "implements");
        auto& t = d.get_type(std::move(m)); MC_CHECK(type_mixins(t) == e, "type of the mutation");
    }
}

// ---------------------------------------------------------------- many initializations
inline void initializations(int max) {
    int n = scale(max, 2), p = position(n), how = mc::choose(arrangements), mode = mc::choose(7);
    if (mc::pruned()) return;
    MC_STEP(n << " mixins, " << p << " of them are in the object before, mode " << mode << ", arrangement " << how);
    mc::outcome(MC_STR(n << ' ' << p << ' ' << how << ' ' << mode));
    objects w(n, mode % kinds);
    auto all = arrange(n, 0);
    std::vector<int> old(all.begin(), all.begin() + p);
    auto order = arrange(n, how);
    auto& t = w.ty(all);
    object o(w.ty(old), allocator(&w.ores));
    w.check(o, old, "before");
    auto before = w.look(o);
    // which mixins get a value: every second in the order of arrangement
    std::map<int, int> want; for (size_t i = 0; i < order.size(); i += 2) want[order[i]] = 5000 + order[i];
    std::vector<int> called; // init functions which were called, and updates as -i - 1
    auto give = [](void* buf, const mixin_info& i, int v) { T().born(i, buf, v); };
    auto idx = [&](const mixin_info& i) { for (int k = 0; k < n; ++k) if (&w.mi(k) == &i) return k; return -1; };
    struct ctx { std::vector<int>* called; decltype(idx)* index; std::map<int, int>* want; int other; } c{&called, &idx, &want, 0};
    auto cinit = [](dnmx_mutate_func_args a) -> dnmx_error_return_t { auto& c = *reinterpret_cast<ctx*>(a.user_data); int i = (*c.index)(*a.info); c.called->push_back(i); T().born(*a.info, a.mixin_buf, 5000 + i); return 0; };
    auto cupd = [](dnmx_mutate_func_args a) -> dnmx_error_return_t { auto& c = *reinterpret_cast<ctx*>(a.user_data); int i = (*c.index)(*a.info); c.called->push_back(-i - 1); T().set(a.mixin_buf, 7000 + i); return 0; };
    bool updates = false;
    switch (mode) {
    case 0: case 1: { // C overrides
        updates = mode == 1;
        std::vector<dnmx_mutate_to_override> v;
        for (auto i : order) if (want.count(i)) v.push_back({i % 3 ? &w.mi(i) : nullptr, i % 3 ? dnmx_sv{} : w.mi(i).name, cinit, updates ? +cupd : nullptr, uintptr_t(&c)});
        MC_EQ(int(dnmx_mutate_to(o.to_c_hanlde(), &t, v.data(), uint32_t(v.size()))), 0, "dnmx_mutate_to");
        break;
    }
    case 2: { // C operations: only those which aren't there are added, in the order of arrangement
        std::vector<dnmx_mutate_op> v;
        for (int i : order) if (i >= p) v.push_back({dnmx_mutate_op_add, i % 3 ? &w.mi(i) : nullptr, i % 3 ? dnmx_sv{} : w.mi(i).name, want.count(i) ? +cinit : nullptr, uintptr_t(&c)});
        MC_EQ(int(dnmx_mutate(o.to_c_hanlde(), v.data(), uint32_t(v.size()))), 0, "dnmx_mutate");
        all = old; for (int i : order) if (i >= p) all.push_back(i);
        break;
    }
    case 3: { // C operations: removal of the old ones, moves to the back
        std::vector<dnmx_mutate_op> v; all = old;
        for (int i : order) if (i < p) { bool r = i % 2; v.push_back({r ? dnmx_mutate_op_remove : dnmx_mutate_op_to_back, i % 3 ? &w.mi(i) : nullptr, i % 3 ? dnmx_sv{} : w.mi(i).name, nullptr, 0}); all.erase(std::find(all.begin(), all.end(), i)); if (!r) all.push_back(i); }
        MC_EQ(int(dnmx_mutate(o.to_c_hanlde(), v.data(), uint32_t(v.size()))), 0, "dnmx_mutate");
        want.clear();
        break;
    }
    case 4: { // a mutation in three pieces
        object_mutation m(o, t);
        int b = (p + n) / 2;
        m.default_construct_each_new_mixin(mixin_index_t(b));
        MC_CHECK(!m.complete() || b == n, "complete");
        want.clear();
        if (b < n) {
            m.update_next_mixin([&](init_new_args a) { called.push_back(idx(a.info)); MC_EQ(int(a.target_index), b, "index of the next"); give(a.mixin_buf, a.info, 5000 + b); }, [&](update_common_args) { mc::fail("update of a new mixin"); });
            want[b] = 5000 + b;
            m.construct_each_new_mixin([&](init_new_args a) { int i = idx(a.info); called.push_back(i); MC_EQ(int(a.target_index), i, "index"); give(a.mixin_buf, a.info, 5000 + i); });
            for (int i = b; i < n; ++i) want[i] = 5000 + i;
        }
        MC_CHECK(m.complete(), "complete");
        break;
    }
    case 5: { // steps at every second mixin
        object_mutation m(o, t);
        want.clear(); updates = true;
        for (int i = p % 2; i < n; i += 2) { m.update_at(mixin_index_t(i), [&](init_new_args a) { called.push_back(idx(a.info)); MC_EQ(int(a.target_index), i, "index"); give(a.mixin_buf, a.info, 5000 + i); }, [&](update_common_args a) { called.push_back(-idx(a.info) - 1); MC_EQ(int(a.target_index), i, "index"); T().set(a.mixin_buf, 7000 + i); }); want[i] = 5000 + i; }
        if (!m.complete()) m.default_construct_each_new_mixin();
        break;
    }
    case 6: { // given up at p
        auto live = T().live.size(), blocks = w.ores.live.size() + w.ma.r.live.size();
        {
            object_mutation m(o, t);
            m.default_construct_each_new_mixin(mixin_index_t((p + n) / 2));
            m.rollback();
        }
        MC_EQ(T().live.size(), live, "mixins after a mutation which was given up"); MC_EQ(w.ores.live.size() + w.ma.r.live.size(), blocks, "blocks after a mutation which was given up");
        all = old; want.clear();
        break;
    }
    }
    w.check(o, all, "after");
    // calls are in the order of the type, each once
    std::vector<int> e; for (int i : all) if (want.count(i)) { if (i >= p) e.push_back(i); else if (updates) e.push_back(-i - 1); }
    MC_CHECK(called == e, "calls: " << MC_STR(called.size()) << " expected " << e.size());
    auto now = w.look(o);
    for (int i : all) {
        int v = now[i].first;
        if (i < p) MC_EQ(v, want.count(i) && updates ? 7000 + i : before[i].first, "value of an old mixin " << i);
        else if (want.count(i)) MC_EQ(v, 5000 + i, "value of a new mixin " << i);
        else MC_CHECK(v < 5000 || v >= 5000 + n, "value of a new mixin without an initialization " << i);
    }
}

// ---------------------------------------------------------------- a domain with many elements of every kind
inline bool matches_some(dnmx_type_handle) noexcept { return true; }
inline void contents(int max) {
    int n = scale(max), p = position(n), what = mc::choose(6);
    if (mc::pruned()) return;
    MC_STEP(n << " elements, change " << what << " at " << p);
    mc::outcome(MC_STR(n << ' ' << p << ' ' << what));
    world_guard wg;
    std::deque<std::string> fn, rn, cn; std::deque<feature_info> fs; std::deque<mutation_rule_info> rs; std::deque<type_class> cs; std::deque<probe> ps;
    domain d("d");
    for (int i = 0; i < n; ++i) {
        fn.push_back("f" + std::to_string(i)); rn.push_back("r" + std::to_string(i)); cn.push_back("c" + std::to_string(i));
        fs.push_back(dnmx_make_feature_info()); fs.back().name = dnmx_sv::from_std(fn.back()); fs.back().allow_clashes = true;
        rs.push_back({dnmx_sv::from_std(rn.back()), [](dnmx_type_mutation_handle, uintptr_t) -> dnmx_error_return_t { return 0; }, 0, n - i});
        cs.push_back(type_class{}); cs.back().name = dnmx_sv::from_std(cn.back()); cs.back().matches = matches_some;
        ps.emplace_back(name(i, 0), 1, 1);
    }
    for (auto& x : fs) d.register_feature(x); for (auto& x : rs) d.add_mutation_rule(x); for (auto& x : cs) d.register_type_class(x); for (auto& x : ps) d.register_mixin(x.info);
    std::vector<const type*> ts; std::vector<infos> qs; // {i, i + 1}
    for (int i = 0; i + 1 < n; ++i) { qs.push_back({&ps[size_t(i)].info, &ps[size_t(i) + 1].info}); ts.push_back(&d.get_type(qs.back())); }
    std::vector<object> os; for (int i = 0; i < 3; ++i) if (p + 1 < n) os.emplace_back(*ts[size_t(p)]);
    std::set<const feature_info*> ef; std::map<const mutation_rule_info*, uint32_t> er; std::set<const type_class*> ec; std::set<const mixin_info*> em; std::set<const type*> et(ts.begin(), ts.end()); std::set<infos> eq(qs.begin(), qs.end());
    for (auto& x : fs) ef.insert(&x); for (auto& x : rs) er[&x] = 1; for (auto& x : cs) ec.insert(&x); for (auto& x : ps) em.insert(&x.info);
    size_t own = d.num_mutation_rules() - size_t(n);
    auto check = [&](const char* when) {
        std::set<const feature_info*> gf; std::map<const mutation_rule_info*, uint32_t> gr; std::set<const type_class*> gc; std::set<const mixin_info*> gm; std::set<const type*> gt; std::set<infos> gq;
        size_t foreign = 0;
        {
        domain_traverse tr(d);
        tr.traverse_features([&](const feature_info& i) { MC_CHECK(gf.insert(&i).second, when << ": feature twice"); });
        tr.traverse_mutation_rules([&](const mutation_rule_info& i, uint32_t c) { if (!er.count(&i)) { ++foreign; return; } MC_CHECK(gr.emplace(&i, c).second, when << ": rule twice"); });
        tr.traverse_type_classes([&](const type_class& i) { MC_CHECK(gc.insert(&i).second, when << ": type class twice"); });
        tr.traverse_mixins([&](const mixin_info& i) { MC_CHECK(gm.insert(&i).second, when << ": mixin twice"); });
        tr.traverse_types([&](const type& t) { MC_CHECK(gt.insert(&t).second, when << ": type twice"); });
        tr.traverse_type_queries([&](itlib::span<const mixin_info* const> q, const type& t) { infos l(q.begin(), q.end()); MC_CHECK(gq.insert(l).second, when << ": request twice"); MC_CHECK(type_mixins(t) == l, when << ": answer of a request"); });
        }
        MC_CHECK(gf == ef, when << ": features: " << gf.size() << " expected " << ef.size()); MC_CHECK(gr == er, when << ": rules: " << gr.size() << " expected " << er.size()); MC_EQ(foreign, own, when << ": other rules");
        MC_CHECK(gc == ec, when << ": type classes: " << gc.size() << " expected " << ec.size()); MC_CHECK(gm == em, when << ": mixins: " << gm.size() << " expected " << em.size());
        MC_CHECK(gt == et, when << ": types: " << gt.size() << " expected " << et.size()); MC_CHECK(std::includes(eq.begin(), eq.end(), gq.begin(), gq.end()), when << ": a request which isn't valid any more is stored");
        MC_EQ(d.num_types(), et.size(), when << ": number of types"); MC_EQ(d.num_type_queries(), gq.size(), when << ": number of requests"); MC_EQ(d.num_mutation_rules(), er.size() + own, when << ": number of rules");
        // the dump names each element once
        std::ostringstream out; util::dbg_dmp(out, d, dnmx_dom_dmp_all);
        std::istringstream in(out.str()); std::string l; std::map<std::string, std::set<std::string>> named; std::map<std::string, size_t> lines; size_t sections = 0;
        while (std::getline(in, l)) {
            if (l.compare(0, 3, "## ") == 0 && isdigit((unsigned char)l[3])) {
                ++sections; size_t at; size_t c = std::stoul(l.substr(3), &at); auto s = l.substr(3 + at + 1);
                size_t e = s == "Features" ? ef.size() : s == "Mixins" ? em.size() : s == "Mutation Rules" ? er.size() + own : s == "Type Classes" ? ec.size() : s == "Types" ? et.size() : s == "Type Queries" ? gq.size() : c;
                MC_EQ(c, e, when << ": number of dumped " << s);
            }
            auto colon = l.find(": '"); if (colon == std::string::npos || l[0] == ' ') continue;
            auto end = l.find_first_of("',", colon + 3); if (end == std::string::npos) continue;
            auto kind = l.substr(0, colon); ++lines[kind];
            MC_CHECK(named[kind].insert(l.substr(colon + 3, end - colon - 3)).second, when << ": dumped twice: " << l);
        }
        MC_EQ(lines["feature"], ef.size(), when << ": dumped features"); MC_EQ(lines["mixin"], em.size(), when << ": dumped mixins"); MC_EQ(lines["rule"], er.size() + own, when << ": dumped rules"); MC_EQ(lines["type class"], ec.size(), when << ": dumped type classes");
        for (auto i : ef) MC_CHECK(named["feature"].count(std::string(i->name.to_std())), when << ": feature isn't dumped"); for (auto i : em) MC_CHECK(named["mixin"].count(std::string(i->name.to_std())), when << ": mixin isn't dumped");
        for (auto& i : er) MC_CHECK(named["rule"].count(std::string(i.first->name.to_std())), when << ": rule isn't dumped"); for (auto i : ec) MC_CHECK(named["type class"].count(std::string(i->name.to_std())), when << ": type class isn't dumped");
        for (auto i : ec) MC_CHECK(d.get_type_class(i->name.to_std()) == i, when << ": type class by name");
    };
    check("registered");
    switch (what) {
    case 0: d.unregister_type_class(cs[size_t(p)]); ec.erase(&cs[size_t(p)]); break;
    case 1: d.remove_mutation_rule(rs[size_t(p)]); er.erase(&rs[size_t(p)]); et.clear(); domain_traverse(d).traverse_types([&](const type& t) { et.insert(&t); }); break;
    case 2: os.clear(); d.unregister_mixin(ps[size_t(p)].info); em.erase(&ps[size_t(p)].info); if (p + 1 < n) { et.erase(ts[size_t(p)]); eq.erase(qs[size_t(p)]); } if (p) { et.erase(ts[size_t(p) - 1]); eq.erase(qs[size_t(p) - 1]); } break;
    case 3: d.garbage_collect_types(); et.clear(); eq.clear(); if (p + 1 < n) { et.insert(ts[size_t(p)]); eq.insert(qs[size_t(p)]); } break;
    case 4: d.unregister_feature(fs[size_t(p)]); ef.erase(&fs[size_t(p)]); break;
    case 5: for (int i = 0; i < 3; ++i) d.add_mutation_rule(rs[size_t(p)]); er[&rs[size_t(p)]] = 4; et.clear(); domain_traverse(d).traverse_types([&](const type& t) { et.insert(&t); }); break;
    }
    check("changed");
}

// ---------------------------------------------------------------- long types through the C interface
inline void c_types(int max) {
    int n = scale(max), p = position(n), how = mc::choose(arrangements), kind = mc::choose(kinds);
    if (mc::pruned()) return;
    MC_STEP("C: " << n << " mixins of kind " << kind << ", arrangement " << how << ", position " << p);
    mc::outcome(MC_STR(n << ' ' << p << ' ' << how << ' ' << kind));
    objects w(n, kind);
    auto dh = w.d->to_c_hanlde();
    auto l = w.list(arrange(n, how));
    auto t = dnmx_get_type_from_infos(dh, l.data(), uint32_t(l.size()));
    MC_CHECK(t && type_mixins(*type::from_c_handle(t)) == l, "dnmx_get_type_from_infos");
    MC_CHECK(t == &w.d->get_type(l), "C and C++ give one type");
    MC_EQ(int(dnmx_type_num_mixins(t)), n, "dnmx_type_num_mixins");
    auto bad = l; bad.push_back(l[size_t(p)]); MC_CHECK(!dnmx_get_type_from_infos(dh, bad.data(), uint32_t(bad.size())), "a duplicate");
    auto part = infos(l.begin(), l.begin() + p); auto tp = dnmx_get_type_from_infos(dh, part.data(), uint32_t(part.size())); MC_CHECK(tp && type_mixins(*type::from_c_handle(tp)) == part, "the first mixins");
    auto o = dnmx_create_object_default(t); MC_CHECK(o && dnmx_object_get_type(o) == t, "dnmx_create_object_default");
    MC_EQ(int(dnmx_object_num_mixins(o)), n, "dnmx_object_num_mixins"); MC_EQ(dnmx_type_num_objects(t), size_t(1), "dnmx_type_num_objects");
    auto& x = *object::from_c_handle(o);
    auto values = [&](object& q) { std::vector<int> v; for (auto i : l) v.push_back(q.has(*i) ? T().val(q.get(*i)) : -1); return v; };
    for (int i = 0; i < n; ++i) {
        auto m = l[size_t(i)]; void* a = x.get(*m);
        MC_EQ(int(dnmx_type_index_of(t, m)), i, "dnmx_type_index_of"); MC_EQ(int(dnmx_type_index_of_name(t, m->name)), i, "dnmx_type_index_of_name");
        MC_CHECK(dnmx_type_has(t, m) && dnmx_type_has_by_name(t, m->name) && dnmx_object_has(o, m) && dnmx_object_has_by_name(o, m->name), "has " << i);
        MC_EQ(dnmx_type_has(tp, m), i < p, "has " << i); MC_EQ(dnmx_type_has_by_name(tp, m->name), i < p, "has by name " << i); MC_EQ(int(dnmx_type_index_of(tp, m)), i < p ? i : int(dnmx_invalid_mixin_index), "index " << i);
        MC_CHECK(a && dnmx_object_get(o, m) == a && dnmx_object_get_mut(o, m) == a && dnmx_object_get_by_name(o, m->name) == a && dnmx_object_get_mut_by_name(o, m->name) == a && dnmx_object_get_at(o, dnmx_mixin_index_t(i)) == a && dnmx_object_get_mut_at(o, dnmx_mixin_index_t(i)) == a, "getters of " << i);
    }
    MC_CHECK(!dnmx_object_get_at(o, dnmx_mixin_index_t(n)), "getter after the end");
    auto v = values(x);
    auto c = dnmx_create_object_copy(o); MC_CHECK(c && values(*object::from_c_handle(c)) == v && dnmx_object_equals(o, c), "dnmx_create_object_copy");
    T().set(x.get(*l[size_t(p)]), 9999);
    MC_CHECK(!dnmx_object_equals(o, c), "difference of mixin " << p); { auto r = dnmx_object_compare(o, c); MC_CHECK(!r.error && r.result > 0, "comparison by mixin " << p); r = dnmx_object_compare(c, o); MC_CHECK(!r.error && r.result < 0, "comparison by mixin " << p); }
    MC_EQ(int(dnmx_object_copy_from(c, o)), 0, "dnmx_object_copy_from"); MC_CHECK(values(*object::from_c_handle(c)) == values(x), "dnmx_object_copy_from");
    auto b = w.look(x);
    MC_EQ(int(dnmx_object_reset_type(o, tp)), 0, "dnmx_object_reset_type"); w.kept(b, x, "dnmx_object_reset_type"); MC_CHECK(type_mixins(x.get_type()) == part, "dnmx_object_reset_type");
    auto u = dnmx_create_object_usurp(c); MC_CHECK(u && dnmx_object_get_type(u) == t && dnmx_object_is_empty(c), "dnmx_create_object_usurp");
    MC_CHECK(dnmx_object_clear(u) && dnmx_object_is_empty(u), "dnmx_object_clear");
    for (auto i : {o, c, u}) dnmx_destroy_object(i);
    MC_EQ(dnmx_type_num_objects(t), size_t(0), "objects at the end"); dnmx_garbage_collect_types(dh); MC_EQ(dnmx_get_num_types(dh), size_t(0), "types at the end");
}
}
