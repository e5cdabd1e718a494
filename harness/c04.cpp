// Mutation rules: all histories of adding/removing rules and of requests, against a fixpoint model.
#include "kit.hpp"
#include "wide2.hpp"
#include <algorithm>
using namespace kit;

namespace {
// mixins: a b c d, x is a dependency
enum { A, B, C, D, X, NM };
using list = std::vector<int>;
enum kind { add_b_if_a, remove_c, a_to_d, d_to_a, toggle_c, rotate_, add_x_if_b, fail_if_c, throw_if_b, noop, add_c_if_b, add_d_if_c, sort_desc, remove_all, add_a_always, kinds };
const char* kname(int k) { static const char* n[] = {"add_b_if_a", "remove_c", "a_to_d", "d_to_a", "toggle_c", "rotate", "add_x_if_b", "fail_if_c", "throw_if_b", "noop", "add_c_if_b", "add_d_if_c", "sort_desc", "remove_all", "add_a_always"}; return n[k]; }

bool has(const list& l, int m) { return std::find(l.begin(), l.end(), m) != l.end(); }
void rem(list& l, int m) { auto f = std::find(l.begin(), l.end(), m); if (f != l.end()) l.erase(f); }
// false: failure
bool model_apply(int k, list& l) {
    switch (k) {
    case add_b_if_a: if (has(l, A) && !has(l, B)) l.push_back(B); break;
    case remove_c: rem(l, C); break;
    case a_to_d: if (has(l, A)) { rem(l, A); if (!has(l, D)) l.push_back(D); } break;
    case d_to_a: if (has(l, D)) { rem(l, D); if (!has(l, A)) l.push_back(A); } break;
    case toggle_c: if (has(l, C)) rem(l, C); else l.push_back(C); break;
    case rotate_: if (!l.empty()) { int m = l[0]; l.erase(l.begin()); l.push_back(m); } break;
    case add_x_if_b: if (has(l, B) && !has(l, X)) l.push_back(X); break;
    case fail_if_c: if (has(l, C)) return false; break;
    case throw_if_b: if (has(l, B)) return false; break;
    case noop: break;
    case add_c_if_b: if (has(l, B) && !has(l, C)) l.push_back(C); break;
    case add_d_if_c: if (has(l, C) && !has(l, D)) l.push_back(D); break;
    case sort_desc: std::sort(l.begin(), l.end(), std::greater<>()); break;
    case remove_all: l.clear(); break;
    case add_a_always: if (!has(l, A)) l.push_back(A); break;
    }
    return true;
}
struct rule { mutation_rule_info info{}; std::string name; int kind = 0; int count = 0; };
struct world;
world* W;
struct world {
    world_guard wg;
    std::deque<probe> ps;
    std::unique_ptr<domain> d;
    std::deque<rule> rules;
    bool canonical;
    std::set<list> types;
    explicit world(bool canonical) : canonical(canonical) {
        W = this;
        for (int i = 0; i < NM; ++i) ps.emplace_back(std::string(1, "abcdx"[i]));
        ps[X].dependency();
        domain_settings st = {}; st.canonicalize_types = canonical;
        d = std::make_unique<domain>("d", st);
        for (auto& p : ps) d->register_mixin(p.info);
    }
    const mixin_info& m(int i) { return ps[size_t(i)].info; }
    void add_rule_desc(int kind, int prio, const char* nm) {
        rules.emplace_back(); auto& r = rules.back();
        r.name = nm; r.kind = kind;
        r.info.name = dnmx_sv::from_std(r.name); r.info.apply = apply; r.info.user_data = uintptr_t(kind); r.info.order_priority = prio;
    }
    static dnmx_error_return_t apply(dnmx_type_mutation_handle h, uintptr_t k) {
        auto& mut = *type_mutation::from_c_handle(h);
        switch (int(k)) {
        case add_b_if_a: if (mut.has(W->m(A))) mut.add_if_lacking("b"); break; // looks up the domain by name
        case remove_c: mut.remove(W->m(C)); break;
        case a_to_d: if (mut.remove(W->m(A))) mut.add_if_lacking(W->m(D)); break;
        case d_to_a: if (mut.remove("d")) mut.add_if_lacking(W->m(A)); break;
        case toggle_c: if (!mut.remove(W->m(C))) mut.add(W->m(C)); break;
        case rotate_: if (!mut.mixins.empty()) mut.to_back(*mut.mixins.front()); break;
        case add_x_if_b: if (mut.has("b")) mut.add_if_lacking(W->m(X)); break;
        case fail_if_c: if (mut.has(W->m(C))) return 42; break;
        case throw_if_b: if (mut.has(W->m(B))) throw std::runtime_error("rule"); break;
        case noop: break;
        case add_c_if_b: if (mut.has(W->m(B))) mut.add_if_lacking(W->m(C)); break;
        case add_d_if_c: if (mut.has(W->m(C))) mut.add_if_lacking(W->m(D)); break;
        case sort_desc: std::sort(mut.mixins.begin(), mut.mixins.end(), [](auto x, auto y) { return x->name.to_std() > y->name.to_std(); }); break;
        case remove_all: mut.mixins.clear(); break;
        case add_a_always: mut.add_if_lacking(W->m(A)); break;
        }
        return 0;
    }
    // reference: result of a request; false on error
    bool expected(list l, list& out) {
        std::vector<rule*> rs;
        for (auto& r : rules) if (r.count) rs.push_back(&r);
        std::sort(rs.begin(), rs.end(), [](rule* x, rule* y) { if (x->info.order_priority != y->info.order_priority) return x->info.order_priority < y->info.order_priority; return x->name < y->name; });
        size_t n = rs.size() + (canonical ? 1 : 0);
        l.erase(std::remove(l.begin(), l.end(), int(X)), l.end());
        list last = l;
        for (size_t round = 0;; ++round) {
            for (auto r : rs) if (!model_apply(r->kind, l)) return false;
            if (canonical) std::sort(l.begin(), l.end());
            if (l == last) break; // settled
            if (round == 5 || (round > 0 && round == n)) return false; // doesn't settle
            if (round == 0 && n == 0) { break; } // no rules: nothing can change any more
            last = l;
        }
        for (size_t i = 0; i < l.size(); ++i) for (size_t j = i + 1; j < l.size(); ++j) if (l[i] == l[j]) return false;
        out = l;
        return true;
    }
    list of(const type& t) { list r; for (auto i : t.mixins) for (int k = 0; k < NM; ++k) if (i == &m(k)) r.push_back(k); return r; }
    static std::string show(const list& l) { std::string s; for (int i : l) s += "abcdx"[i]; return "[" + s + "]"; }
    void request(const list& l, int entry) {
        MC_STEP("request " << show(l) << (entry ? " by mutation" : ""));
        list e; bool ok = expected(l, e);
        const type* t = nullptr;
        auto out = outcome_of([&] {
            infos v; for (int i : l) v.push_back(&m(i));
            if (entry == 0) t = &d->get_type(v);
            else { type_mutation mut(*d); mut.mixins.assign(v.begin(), v.end()); t = &d->get_type(std::move(mut)); }
        });
        MC_EQ(out.empty(), ok, "outcome of the request of " << show(l) << " (" << out << ")");
        if (ok) { MC_CHECK(of(*t) == e, "request of " << show(l) << " gave " << show(of(*t)) << ", the rules give " << show(e)); if (!e.empty()) types.insert(e); }
    }
    void check() {
        std::set<list> seen;
        domain_traverse(*d).traverse_types([&](const type& t) { MC_CHECK(seen.insert(of(t)).second, "type twice"); });
        MC_CHECK(seen == types, "existing types");
        size_t n = canonical;
        std::map<const mutation_rule_info*, uint32_t> rs;
        domain_traverse(*d).traverse_mutation_rules([&](const mutation_rule_info& i, uint32_t c) { rs[&i] = c; });
        for (auto& r : rules) { if (r.count) ++n; MC_EQ(rs[&r.info], uint32_t(r.count), "reference count of rule " << r.name); }
        MC_EQ(d->num_mutation_rules(), n, "number of rules");
    }
    std::string key() {
        std::string k;
        for (auto& r : rules) { k += char('A' + r.kind); k += char('0' + r.count); k += MC_STR(r.info.order_priority); }
        k += canonical ? 'c' : '-';
        for (auto& t : types) k += show(t);
        std::set<std::string> q;
        domain_traverse(*d).traverse_type_queries([&](itlib::span<const mixin_info* const> s, const type& t) { std::string r; for (auto i : s) r += std::string(i->name.to_std()); q.insert(r + ">" + show(of(t))); });
        for (auto& s : q) k += s + ";";
        return k;
    }
};

const std::vector<list>& requests() {
    static const std::vector<list> r = {{}, {A}, {B}, {C}, {A, B}, {B, A}, {C, A}, {D, B}, {X}, {A, X}, {X, B}, {C, X, B}, {A, D}, {C, D, A, B}};
    return r;
}

// sequences of rule changes and requests over a chosen set of rules
void histories(bool dedup, int depth, int nrules, std::vector<int> pool, bool twoentries) {
    bool canonical = mc::flip();
    world w(canonical);
    // choose an (unordered) set of rules; the priorities are in the order of choice or reversed, or tie (order by name)
    int from = 0; std::vector<int> ks;
    for (int i = 0; i < nrules; ++i) {
        int room = int(pool.size()) - from - (nrules - 1 - i);
        int c = mc::choose(room);
        from += c; ks.push_back(pool[size_t(from)]); ++from;
    }
    int arrangement = mc::choose(3);
    if (mc::pruned()) return;
    for (int i = 0; i < nrules; ++i) {
        int prio = arrangement == 0 ? i : arrangement == 1 ? -i : 0;
        w.add_rule_desc(ks[size_t(i)], prio, kname(ks[size_t(i)]));
    }
    MC_LOG("rules:" << [&] { std::string s; for (auto& r : w.rules) s += " " + r.name + "@" + std::to_string(r.info.order_priority); return s; }() << (canonical ? " canonical domain" : ""));
    auto& rq = requests();
    int nq = int(rq.size()) * (twoentries ? 2 : 1);
    bool asked = true;
    for (int i = 0; i < depth; ++i) {
        // the last operation is a request: rule changes which aren't followed by a request show nothing
        bool last = i == depth - 1 && !dedup;
        int op = mc::choose(nq + (last ? 0 : 2 * nrules + 1));
        if (mc::pruned()) return;
        if (op < nq) { w.request(rq[size_t(op) % rq.size()], op >= int(rq.size())); asked = true; }
        else if (op == nq) { MC_STEP("collect types"); w.d->garbage_collect_types(); w.types.clear(); }
        else {
            auto& r = w.rules[size_t((op - nq - 1) / 2)];
            if ((op - nq - 1) % 2 == 0) {
                if (r.count == 2) return;
                MC_STEP("add rule " << r.name); w.d->add_mutation_rule(r.info); ++r.count;
            }
            else { MC_STEP("remove rule " << r.name); w.d->remove_mutation_rule(r.info); if (r.count) --r.count; }
        }
        w.check();
        auto k = w.key();
        mc::outcome(k);
        if (dedup && !mc::visit(k, depth - 1 - i)) return;
    }
    (void)asked;
}

// all rule sets: one request each, everything added beforehand
void rule_sets(int n) {
    bool canonical = mc::flip();
    world w(canonical);
    for (int i = 0; i < n; ++i) {
        int k = mc::choose(kinds + 1);
        if (k == kinds) break;
        bool dup = false; for (auto& r : w.rules) dup |= r.kind == k;
        if (dup) return;
        w.add_rule_desc(k, i, kname(k));
    }
    if (mc::pruned()) return;
    // rules are added in reverse order: the order of application must come from the priorities
    for (size_t i = w.rules.size(); i-- > 0;) { w.d->add_mutation_rule(w.rules[i].info); w.rules[i].count = 1; }
    MC_LOG("rules:" << [&] { std::string s; for (auto& r : w.rules) s += " " + r.name; return s; }() << (canonical ? " canonical domain" : ""));
    std::string oc;
    for (int pass = 0; pass < 2; ++pass) for (auto& l : requests()) { w.request(l, pass); list e; oc += w.expected(l, e) ? world::show(e) : "!"; }
    w.check();
    mc::outcome(oc);
}

void no_func() {
    world w(mc::flip());
    if (mc::pruned()) return;
    w.add_rule_desc(noop, 0, "r");
    w.rules[0].info.apply = nullptr;
    MC_STEP("add a rule without a function");
    MC_EQ(outcome_of([&] { w.d->add_mutation_rule(w.rules[0].info); }), std::string("domain_error"), "rule without a function");
    w.check();
}

// How many rounds are allowed: chains of rules, each of which needs the result of the previous one, in all orders of priority,
// and rules which do one step of several each time they are applied.
struct chain {
    enum { M = 9 };
    struct rule { mutation_rule_info info{}; std::string name; int from, steps; }; // adds from+1 if from is there; from < 0: adds the first one which is missing of the first steps
    world_guard wg;
    std::deque<probe> ps; std::deque<rule> rules; std::unique_ptr<domain> d; bool canonical;
    static chain*& W() { static chain* w; return w; }
    explicit chain(bool canonical) : canonical(canonical) {
        W() = this;
        for (int i = 0; i < M; ++i) ps.emplace_back(std::string(1, char('a' + i)));
        domain_settings st = {}; st.canonicalize_types = canonical;
        d = std::make_unique<domain>("d", st);
        for (auto& p : ps) d->register_mixin(p.info);
    }
    static dnmx_error_return_t apply(dnmx_type_mutation_handle h, uintptr_t u) {
        auto& m = *type_mutation::from_c_handle(h); auto& r = *reinterpret_cast<rule*>(u); auto& ps = W()->ps;
        if (r.from >= 0) { if (m.has(ps[size_t(r.from)])) m.add_if_lacking(ps[size_t(r.from + 1)]); }
        else for (int i = 1; i <= r.steps; ++i) if (!m.has(ps[size_t(i)])) { m.add(ps[size_t(i)]); break; }
        return 0;
    }
    void add(int from, int steps, int prio) {
        rules.emplace_back(); auto& r = rules.back(); r.from = from; r.steps = steps; r.name = MC_STR("r" << rules.size());
        r.info.name = dnmx_sv::from_std(r.name); r.info.apply = apply; r.info.user_data = reinterpret_cast<uintptr_t>(&r); r.info.order_priority = prio;
        d->add_mutation_rule(r.info);
    }
    bool expected(list l, list& out) {
        std::vector<rule*> rs; for (auto& r : rules) rs.push_back(&r);
        std::sort(rs.begin(), rs.end(), [](rule* x, rule* y) { if (x->info.order_priority != y->info.order_priority) return x->info.order_priority < y->info.order_priority; return x->name < y->name; });
        size_t n = rs.size() + size_t(canonical);
        for (size_t round = 0;; ++round) {
            auto last = l;
            for (auto r : rs) {
                if (r->from >= 0) { if (has(l, r->from) && !has(l, r->from + 1)) l.push_back(r->from + 1); }
                else for (int i = 1; i <= r->steps; ++i) if (!has(l, i)) { l.push_back(i); break; }
            }
            if (canonical) std::sort(l.begin(), l.end());
            if (l == last) break;
            if (round == 5 || (round > 0 && round == n)) return false;
        }
        out = l; return true;
    }
    void request(const list& l) {
        list e; bool ok = expected(l, e);
        size_t types = d->num_types();
        for (int again = 0; again < 2; ++again) {
            infos v; for (int i : l) v.push_back(&ps[size_t(i)].info);
            const type* t = nullptr;
            auto out = outcome_of([&] { t = &d->get_type(v); });
            MC_STEP("request of " << l.size() << " mixins -> " << (t ? names(type_mixins(*t)) : out));
            MC_EQ(out.empty(), ok, "outcome (" << out << ")");
            if (!ok) { MC_EQ(d->num_types(), types, "a failing request created a type"); continue; }
            infos x; for (int i : e) x.push_back(&ps[size_t(i)].info);
            MC_CHECK(type_mixins(*t) == x, "got " << names(type_mixins(*t)) << " expected " << names(x));
        }
    }
};
void chains() {
    int n = 1 + mc::choose(mc::pick(6, 7)); // links of the chain
    std::vector<int> left, order; for (int i = 0; i < n; ++i) left.push_back(i);
    while (!left.empty()) { int k = mc::choose(int(left.size())); order.push_back(left[size_t(k)]); left.erase(left.begin() + k); }
    int more = mc::choose(n < 6 ? 3 : 1); // rules which do nothing
    bool canonical = n < 6 && mc::flip();
    if (mc::pruned()) return;
    chain w(canonical);
    std::string t; for (int i : order) t += char('a' + i);
    MC_LOG("rules which add the next one, in the order of priority: " << t << ", and " << more << " which do nothing" << (canonical ? ", canonical" : ""));
    for (int i = 0; i < n; ++i) w.add(order[size_t(i)], 0, i);
    for (int i = 0; i < more; ++i) w.add(-1, 0, 100 * (i % 2) - 50);
    w.request({0}); w.request({n}); if (n > 1) { w.request({n / 2, 0}); w.request({0, 1}); w.request({1}); }
    mc::outcome(MC_STR(t << more << canonical));
}
void slow_rules() {
    int k = 1 + mc::choose(3), steps = mc::choose(9), more = mc::choose(8);
    bool canonical = mc::flip();
    if (mc::pruned()) return;
    chain w(canonical);
    MC_LOG(k << " rules which add one of " << steps << " each time, and " << more << " which do nothing" << (canonical ? ", canonical" : ""));
    for (int i = 0; i < k; ++i) w.add(-1, steps, i);
    for (int i = 0; i < more; ++i) w.add(-1, 0, 7);
    w.request({0}); w.request({1, 0}); w.request({8}); w.request({});
    mc::outcome(MC_STR(k << steps << more << canonical));
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        std::vector<int> all; for (int i = 0; i < kinds; ++i) all.push_back(i);
        std::vector<int> some = {add_b_if_a, remove_c, a_to_d, d_to_a, toggle_c, add_x_if_b, fail_if_c, add_c_if_b, throw_if_b};
        mc::section("no-function", no_func);
        mc::section("rule-sets", [] { rule_sets(pick(3, 4)); });
        mc::section("one-rule/all-sequences", [=] { histories(false, pick(3, 4), 1, all, mc::thorough); });
        mc::section("two-rules/all-sequences", [=] { histories(false, pick(3, 4), 2, mc::thorough ? all : std::vector<int>{add_b_if_a, remove_c, a_to_d, toggle_c, add_x_if_b, fail_if_c}, mc::thorough); });
        mc::section("two-rules/all-states", [=] { histories(true, pick(4, 6), 2, std::vector<int>{add_b_if_a, d_to_a, toggle_c, add_x_if_b, throw_if_b}, false); });
        mc::section("three-rules/all-states", [=] { histories(true, pick(3, 5), 3, mc::thorough ? all : std::vector<int>{add_b_if_a, remove_c, add_c_if_b, fail_if_c}, false); });
        mc::section("rounds/chains", [] { chains(); });
        mc::section("rounds/slow-rules", [] { slow_rules(); });
        mc::section("many-rules", [] { wide::rules(mc::pick(65, 1025)); });
        mc::section("rule-counts", [] { wide::rule_counts(); });
    });
}
