// A domain with a few mixins and rules, the operations of threads on its types, and the sequential model they are compared with.
#pragma once
#include "sched.hpp"
#include <dnmx/domain.h>
#include <algorithm>
using namespace kit;

namespace ct {
enum { A, B, C, X, NM }; // x is a dependency
using list = std::vector<int>;
inline std::string lstr(const list& l) { std::string r = "["; for (int i : l) r += "abcx"[i]; return r + "]"; }
enum rule_kind { r_add_b_if_a, r_c_to_a, r_add_x_if_b, r_fail_if_c, r_rotate, NR };
inline const char* rname(int k) { static const char* n[] = {"add-b-if-a", "c-to-a", "add-x-if-b", "fail-if-c", "rotate"}; return n[k]; }
// domains by which the rules find them: plain data, written before the threads start
struct world;
inline world*& W() { static world* w; return w; }

enum op_kind { o_get, o_add, o_remove, o_gc, o_types, o_queries, o_rules, o_unreg, o_reg };
struct op {
    op_kind k = o_get; int entry = 0; int rule = 0; list q;
    std::string str() const {
        switch (k) {
        case o_get: return "request" + std::string(entry == 0 ? "" : entry == 1 ? "(mutation)" : "(C)") + " " + lstr(q);
        case o_add: return std::string("add rule ") + rname(rule);
        case o_remove: return std::string("remove rule ") + rname(rule);
        case o_gc: return "collect";
        case o_unreg: return "unregister c";
        case o_reg: return "register c";
        case o_types: return "count types";
        case o_queries: return "count queries";
        default: return "count rules";
        }
    }
};
inline op get(list q, int entry = 0) { op o; o.q = std::move(q); o.entry = entry; return o; }
inline op rule_op(op_kind k, int r) { op o; o.k = k; o.rule = r; return o; }
inline op simple(op_kind k) { op o; o.k = k; return o; }

struct model {
    bool canonical = false, observe = true, c_registered = true;
    int rules[NR] = {};
    std::set<list> types, kept;
    std::map<list, list> queries;
    static bool apply(int k, list& l) {
        auto has = [&](int m) { return std::find(l.begin(), l.end(), m) != l.end(); };
        switch (k) {
        case r_add_b_if_a: if (has(A) && !has(B)) l.push_back(B); break;
        case r_c_to_a: if (has(C)) { l.erase(std::find(l.begin(), l.end(), int(C))); if (!has(A)) l.push_back(A); } break;
        case r_add_x_if_b: if (has(B) && !has(X)) l.push_back(X); break;
        case r_fail_if_c: return !has(C);
        case r_rotate: if (!l.empty()) { int m = l[0]; l.erase(l.begin()); l.push_back(m); } break;
        }
        return true;
    }
    int num_rules() const { int n = canonical; for (int c : rules) n += c > 0; return n; }
    // 0 - ok, 1 - error
    bool compute(const list& q, list& out) const {
        list l = q;
        l.erase(std::remove(l.begin(), l.end(), int(X)), l.end());
        list last = l;
        for (int round = 0;; ++round) {
            for (int r = 0; r < NR; ++r) if (rules[r] && !apply(r, l)) return false;
            if (canonical) std::sort(l.begin(), l.end());
            if (l == last) break;
            if (round == 5 || (round > 0 && round == num_rules())) return false;
            last = l;
        }
        out = l;
        if (types.count(l)) return true;
        for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) if (l[i] == l[j]) return false;
        return true;
    }
    std::string run(const op& o) {
        switch (o.k) {
        case o_get: {
            auto f = queries.find(o.q);
            list r;
            if (f != queries.end()) r = f->second;
            else {
                if (!compute(o.q, r)) return "type_error";
                if (!r.empty()) types.insert(r);
                queries[o.q] = r;
            }
            return observe ? lstr(r) : "ok";
        }
        case o_add: if (++rules[o.rule] == 1) queries.clear(); return "ok";
        case o_remove: if (rules[o.rule] && --rules[o.rule] == 0) queries.clear(); return "ok";
        case o_gc:
            for (auto i = queries.begin(); i != queries.end();) if (!i->second.empty() && !kept.count(i->second)) i = queries.erase(i); else ++i;
            types = kept;
            return "ok";
        case o_unreg: {
            auto h = [](const list& l) { return std::find(l.begin(), l.end(), int(C)) != l.end(); };
            if (!c_registered) return "domain_error";
            c_registered = false;
            for (auto i = queries.begin(); i != queries.end();) if (h(i->first) || h(i->second)) i = queries.erase(i); else ++i;
            for (auto i = types.begin(); i != types.end();) if (h(*i)) i = types.erase(i); else ++i;
            return "ok";
        }
        case o_reg: if (c_registered) return "domain_error"; c_registered = true; return "ok";
        case o_types: return std::to_string(types.size());
        case o_queries: return std::to_string(queries.size());
        default: return std::to_string(num_rules());
        }
    }
    std::string state() const {
        std::string r = "types";
        for (auto& t : types) r += " " + lstr(t);
        r += " queries";
        for (auto& q : queries) r += " " + lstr(q.first) + "->" + lstr(q.second);
        r += " rules";
        for (int i = 0; i < NR; ++i) if (rules[i]) r += std::string(" ") + rname(i) + "*" + std::to_string(rules[i]);
        return r;
    }
};
using hist = sched::history<model, op>;

struct world {
    mixin_info ps[NM];
    std::vector<feature_for_mixin> fs;
    feature_info feat;
    mutation_rule_info rules[NR];
    std::unique_ptr<domain> d;
    std::unique_ptr<object> keeper;
    model m;
    long blocks;
    world(bool canonical, bool observe) : blocks(sched::mem_blocks()) {
        W() = this;
        m.canonical = canonical; m.observe = observe;
        feat = dnmx_make_feature_info();
        feat.name = dnmx_make_sv_lit("f"); feat.allow_clashes = true;
        fs.push_back({&feat, nullptr, 0, 0});
        static const char* nm[] = {"a", "b", "c", "x"};
        for (int i = 0; i < NM; ++i) {
            ps[i] = dnmx_make_mixin_info();
            ps[i].name = dnmx_make_sv_len(nm[i], 1);
            ps[i].set_size_alignment(8, 8);
            ps[i].init = [](const mixin_info*, void*) { return result_success; };
            if (i < 2) ps[i].set_features(fs);
        }
        ps[X].dependency = true;
        domain_settings st = {}; st.canonicalize_types = canonical;
        d = std::make_unique<domain>("d", st);
        for (auto& p : ps) d->register_mixin(p);
        for (int i = 0; i < NR; ++i) {
            rules[i] = mutation_rule_info{};
            rules[i].name = dnmx_make_sv_len(rname(i), strlen(rname(i)));
            rules[i].user_data = uintptr_t(i); rules[i].order_priority = i; rules[i].apply = s_apply;
        }
    }
    ~world() {
        keeper.reset();
        d.reset();
        MC_EQ(sched::mem_blocks(), blocks, "memory blocks not returned by the domain");
    }
    void keep(const list& q) { // an object which keeps a type alive
        keeper = std::make_unique<object>(d->get_type(infos_of(q)));
        list r; m.run(get(q)); m.compute(q, r); m.kept.insert(r);
    }
    infos infos_of(const list& q) const { infos r; for (int i : q) r.push_back(&ps[i]); return r; }
    static dnmx_error_return_t s_apply(dnmx_type_mutation_handle h, uintptr_t k) {
        auto& mut = *type_mutation::from_c_handle(h);
        auto& w = *W();
        switch (int(k)) {
        case r_add_b_if_a: if (mut.has(w.ps[A])) mut.add_if_lacking("b"); break; // looks for the mixin in the domain
        case r_c_to_a: if (mut.remove(w.ps[C])) mut.add_if_lacking(w.ps[A]); break;
        case r_add_x_if_b: if (mut.has(w.ps[B])) mut.add_if_lacking(w.ps[X]); break;
        case r_fail_if_c: if (mut.has(w.ps[C])) return 42; break;
        case r_rotate: if (!mut.mixins.empty()) mut.to_back(*mut.mixins.front()); break;
        }
        return 0;
    }
    list of_type(const type& t) const { list r; for (auto p : t.mixins) r.push_back(int(p - ps)); return r; }
    [[noreturn]] static void throw_() { throw std::runtime_error("C"); }
    // executed by the threads
    std::string run(const op& o, std::vector<std::pair<list, const type*>>& got) {
        switch (o.k) {
        case o_get: {
            const type* t = nullptr;
            auto e = outcome_of([&] {
                auto q = infos_of(o.q);
                if (o.entry == 0) t = &d->get_type(q);
                else if (o.entry == 1) { type_mutation mut(*d); for (auto i : q) mut.add(*i); t = &d->get_type(std::move(mut)); }
                else { t = type::from_c_handle(dnmx_get_type_from_infos(d->to_c_hanlde(), q.data(), uint32_t(q.size()))); if (!t) throw_(); }
            });
            if (!e.empty()) return e == "domain_error" || (e == "std_exception" && o.entry == 2) ? "type_error" : e;
            if (!m.observe) return "ok";
            auto l = of_type(*t);
            // the type is complete
            int f = 0;
            for (size_t i = 0; i < l.size(); ++i) {
                if (t->index_of(ps[l[i]].id) != i || !t->has(ps[l[i]].id)) return "incomplete type";
                if (l[i] < 2) ++f;
            }
            if (t->object_buffer_size < l.size() * 16) return "incomplete type (buffer)";
            auto fe = t->ftable_at(feat.id);
            if ((fe ? fe.end - fe.begin : 0) != f) return "incomplete type (features)";
            for (int i = 0; i < f; ++i) if (fe.begin[i].data->info != &feat || fe.begin[i].mixin_index >= l.size()) return "incomplete type (feature table)";
            got.push_back({l, t});
            return lstr(l);
        }
        case o_add: { auto e = outcome_of([&] { d->add_mutation_rule(rules[o.rule]); }); return e.empty() ? "ok" : e; }
        case o_remove: d->remove_mutation_rule(rules[o.rule]); return "ok";
        case o_gc: d->garbage_collect_types(); return "ok";
        case o_unreg: return outcome_of([&] { d->unregister_mixin(ps[C]); }).empty() ? "ok" : "domain_error";
        case o_reg: return outcome_of([&] { d->register_mixin(ps[C]); }).empty() ? "ok" : "domain_error";
        case o_types: return std::to_string(d->num_types());
        case o_queries: return std::to_string(d->num_type_queries());
        default: return std::to_string(d->num_mutation_rules());
        }
    }
    std::string state() {
        model s;
        domain_traverse tr(*d);
        std::set<const type*> ts; ts.insert(&d->get_empty_type());
        tr.traverse_types([&](const type& t) { ts.insert(&t); if (!s.types.insert(of_type(t)).second) mc::fail("a type exists twice: " + lstr(of_type(t))); });
        tr.traverse_type_queries([&](auto q, const type& t) {
            list l; for (auto p : q) l.push_back(int(p - ps));
            if (!ts.count(&t)) mc::fail("the stored request " + lstr(l) + " leads to a type which doesn't exist");
            s.queries[l] = of_type(t);
        });
        tr.traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t n) { if (&r >= rules && &r < rules + NR) s.rules[r.user_data] = int(n); });
        return s.state();
    }
    void setup(const op& o) { std::vector<std::pair<list, const type*>> g; auto r = run(o, g); auto e = m.run(o); MC_EQ(r, e, "setup " << o.str()); }
    // runs the programs of the threads in every schedule and compares with all sequential orders
    void concurrent(const std::vector<std::vector<op>>& prog) {
        int n = int(prog.size());
        hist h(n);
        std::vector<std::vector<std::pair<list, const type*>>> got(prog.size());
        for (int t = 0; t < n; ++t) { for (auto& o : prog[size_t(t)]) { h.ops[size_t(t)].push_back({t, o, {}, 0, 0}); MC_LOG("thread " << t << ": " << o.str()); } got[size_t(t)].reserve(8); }
        sched::run(n, [&](int t) {
            for (auto& i : h.ops[size_t(t)]) {
                mc::step_();
                i.begin = sched::tick();
                i.result = run(i.op, got[size_t(t)]);
                i.end = sched::tick();
            }
        });
        if (mc::pruned()) return;
        auto st = state();
        MC_LOG("history" << h.str() << " => " << st);
        if (!h.linearizable(m, [](model& m, const op& o, int) { return m.run(o); }, [](const model& m) { return m.state(); }, st))
            mc::fail("no order of the operations explains what was observed: " + m.state() + h.str() + " => " + st);
        if (m.observe) {
            std::map<list, const type*> by;
            for (auto& g : got) for (auto& x : g) { auto& t = by[x.first]; if (t && t != x.second) mc::fail("requests got different types " + lstr(x.first)); t = x.second; }
            domain_traverse tr(*d);
            tr.traverse_types([&](const type& t) { auto f = by.find(of_type(t)); if (f != by.end()) { if (f->second != &t) mc::fail("a request got a type " + lstr(f->first) + " which isn't of the domain"); by.erase(f); } });
            for (auto& b : by) if (!b.first.empty()) mc::fail("a request got a type " + lstr(b.first) + " which isn't of the domain");
        }
        std::string oc; for (auto& t : h.ops) for (auto& i : t) oc += i.op.str() + i.result + ";"; mc::outcome(oc + st);
        // everything has finished: the current rules answer
        model f; f = m; f.types.clear(); f.queries.clear(); for (auto& r : f.rules) r = 0;
        { domain_traverse tr(*d); tr.traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t n) { if (&r >= rules && &r < rules + NR) f.rules[r.user_data] = int(n); }); tr.traverse_types([&](const type& t) { f.types.insert(of_type(t)); }); }
        f.observe = true; auto keep = m.observe; m.observe = true;
        for (auto& t : prog) for (auto& o : t) if (o.k == o_get) {
            op g = get(o.q); std::vector<std::pair<list, const type*>> x; auto e = f.run(g); auto r = run(g, x);
            if (r != e) mc::fail("afterwards " + g.str() + " gives " + r + " instead of " + e + h.str());
        }
        m.observe = keep;
    }
};
}
