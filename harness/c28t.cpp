// Introspection while other threads change the domain: every traversal and dump is a snapshot of one moment.
#include "sched.hpp"
#include <dynamix/dbg_dmp.hpp>
#include <dynamix/type_class.hpp>
#include <algorithm>
using namespace kit;

namespace {
enum what { traverse, dump, dump_types, count, reg_m, reg_f, unreg_f, reg_t, unreg_t, add_r, rem_r, get_a, get_ab, gc };
const char* wname(int w) { static const char* n[] = {"traverse", "dump", "dump types", "count", "register m", "register f", "unregister f", "register t", "unregister t", "add r", "remove r", "get {a}", "get {a,b}", "collect"}; return n[w]; }
struct op { int w; std::string str() const { return wname(w); } };

struct model {
    bool m = false, f = false, t = false; int r = 0; std::set<std::string> types;
    std::string state() const { std::string s = std::string("a b ") + (m ? "m " : "") + (f ? "f " : "") + (t ? "t " : "") + "r" + std::to_string(r); for (auto& x : types) s += " " + x; return s; }
    std::string run(const op& o, int) {
        auto once = [](bool& b, bool v) { if (b == v) return "error"; b = v; return "ok"; };
        switch (o.w) {
        case traverse: case dump: return state();
        case dump_types: { std::string s; for (auto& x : types) s += " " + x; return s; }
        case count: return std::to_string(types.size());
        case reg_m: return once(m, true);
        case reg_f: return once(f, true);
        case unreg_f: return once(f, false);
        case reg_t: return once(t, true);
        case unreg_t: t = false; return "ok";
        case add_r: ++r; return "ok";
        case rem_r: if (r) --r; return "ok";
        case get_a: types.insert("{'a'}"); return "ok";
        case get_ab: types.insert("{'a', 'b'}"); return "ok";
        case gc: types.clear(); return "ok";
        }
        return "?";
    }
};
using hist = sched::history<model, op>;

struct world {
    mixin_info A, B, M; feature_info F; type_class T; mutation_rule_info R{};
    std::unique_ptr<domain> d;
    model m;
    long blocks;
    world() : blocks(sched::mem_blocks()) {
        for (auto p : {&A, &B, &M}) { *p = dnmx_make_mixin_info(); p->set_size_alignment(8, 8); }
        A.name = dnmx_make_sv_lit("a"); B.name = dnmx_make_sv_lit("b"); M.name = dnmx_make_sv_lit("m");
        F = dnmx_make_feature_info(); F.name = dnmx_make_sv_lit("f");
        T.name = dnmx_make_sv_lit("t"); T.matches = [](dnmx_type_handle) noexcept { return true; };
        R.name = dnmx_make_sv_lit("r"); R.apply = [](dnmx_type_mutation_handle, uintptr_t) -> dnmx_error_return_t { return 0; };
        d = std::make_unique<domain>("d");
        d->register_mixin(A); d->register_mixin(B);
    }
    ~world() { d.reset(); MC_EQ(sched::mem_blocks(), blocks, "memory blocks not returned by the domain"); }
    static std::string list(itlib::span<const mixin_info* const> s) { std::string r; for (auto i : s) r += (r.empty() ? "'" : ", '") + std::string(i->name.to_std()) + "'"; return "{" + r + "}"; }
    std::string snapshot() {
        domain_traverse tr(*d);
        std::string s; std::set<std::string> ms, ts; std::string rules = "r0";
        tr.traverse_mixins([&](const mixin_info& i) { if (!ms.insert(std::string(i.name.to_std())).second) mc::fail("a mixin is visited twice"); });
        for (auto& x : ms) s += x + " ";
        tr.traverse_features([&](const feature_info& i) { s += std::string(i.name.to_std()) + " "; });
        tr.traverse_type_classes([&](const type_class& i) { s += std::string(i.name.to_std()) + " "; });
        tr.traverse_mutation_rules([&](const mutation_rule_info&, uint32_t n) { rules = "r" + std::to_string(n); });
        tr.traverse_types([&](const type& t) { if (!ts.insert(list(t.mixins)).second) mc::fail("a type is visited twice"); });
        tr.traverse_type_queries([&](itlib::span<const mixin_info* const> q, const type& t) { if (list(q) != list(t.mixins) || !ts.count(list(t.mixins))) mc::fail("a stored request leads to a type which isn't visited"); });
        s += rules; for (auto& x : ts) s += " " + x;
        return s;
    }
    std::string parse(uint32_t flags) {
        std::ostringstream out; util::dbg_dmp(out, *d, flags);
        std::istringstream in(out.str());
        std::string l, s, rules = "r0", part; std::set<std::string> ms, ts, qs; std::map<std::string, long> want, got;
        auto quoted = [&](const std::string& l) { auto a = l.find('\''); return l.substr(a + 1, l.find_first_of("',", a + 1) - a - 1); };
        auto begins = [&](const char* p) { return l.compare(0, strlen(p), p) == 0; };
        while (std::getline(in, l)) {
            if (begins("## ") && isdigit(l[3])) { size_t p; long n = std::stol(l.substr(3), &p); part = l.substr(3 + p + 1); want[part] = n; continue; }
            if (begins("## ")) { part = ""; continue; }
            if (begins(" ") || part.empty() || l.find("empty slots") != std::string::npos) continue;
            ++got[part];
            if (begins("type: ")) { auto t = l.substr(6, l.find('}') - 5); if (!ts.insert(t).second) mc::fail("a type is dumped twice: " + t); }
            else if (begins("tq: ")) { auto t = l.substr(4, l.find('}') - 3); qs.insert(t); }
            else if (begins("rule: ")) rules = "r" + l.substr(l.rfind(", ") + 2, l.rfind(" refs") - l.rfind(", ") - 2);
            else if (part == "Mixins") ms.insert(quoted(l));
            else s += quoted(l) + " ";
        }
        for (auto& w : want) MC_EQ(got[w.first], w.second, "dumped lines of " << w.first);
        for (auto& q : qs) MC_CHECK(ts.count(q), "a dumped request leads to a type which isn't dumped");
        if (!(flags & dnmx_dom_dmp_mixins)) { std::string r; for (auto& x : ts) r += " " + x; return r; }
        std::string h; for (auto& x : ms) h += x + " ";
        h += s + rules; for (auto& x : ts) h += " " + x;
        return h;
    }
    std::string run(const op& o) {
        auto e = [&](auto f) { auto r = outcome_of(f); return r.empty() ? std::string("ok") : r == "domain_error" ? std::string("error") : r; };
        const mixin_info* ab[] = {&A, &B};
        switch (o.w) {
        case traverse: return snapshot();
        case dump: return parse(dnmx_dmp_all);
        case dump_types: return parse(dnmx_dom_dmp_types | dnmx_dom_dmp_type_queries);
        case count: return std::to_string(d->num_types());
        case reg_m: return e([&] { d->register_mixin(M); });
        case reg_f: return e([&] { d->register_feature(F); });
        case unreg_f: return e([&] { d->unregister_feature(F); });
        case reg_t: return e([&] { d->register_type_class(T); });
        case unreg_t: d->unregister_type_class(T); return "ok";
        case add_r: return e([&] { d->add_mutation_rule(R); });
        case rem_r: d->remove_mutation_rule(R); return "ok";
        case get_a: return e([&] { d->get_type(itlib::span<const mixin_info* const>(ab, 1)); });
        case get_ab: return e([&] { d->get_type(itlib::span<const mixin_info* const>(ab, 2)); });
        case gc: d->garbage_collect_types(); return "ok";
        }
        return "?";
    }
    void concurrent(const std::vector<std::vector<op>>& prog) {
        hist h(int(prog.size()));
        for (size_t t = 0; t < prog.size(); ++t) for (auto& o : prog[t]) { h.ops[t].push_back({int(t), o, {}, 0, 0}); MC_LOG("thread " << t << ": " << o.str()); }
        sched::run(int(prog.size()), [&](int t) {
            for (auto& i : h.ops[size_t(t)]) { mc::step_(); i.begin = sched::tick(); i.result = run(i.op); i.end = sched::tick(); }
        });
        if (mc::pruned()) return;
        auto st = snapshot();
        MC_LOG("history" << h.str() << " => " << st);
        if (!h.linearizable(m, [](model& m, const op& o, int t) { return m.run(o, t); }, [](const model& m) { return m.state(); }, st))
            mc::fail("no order of the operations explains what was observed: " + m.state() + h.str() + " => " + st);
        std::string oc; for (auto& t : h.ops) for (auto& i : t) oc += i.op.str() + i.result + ";"; mc::outcome(oc + st);
    }
};
const int LOOK[] = {traverse, dump, dump_types, count};
const int CHANGE[] = {reg_m, reg_f, unreg_f, reg_t, unreg_t, add_r, rem_r, get_a, get_ab, gc};
void body(int threads, int len) {
    std::vector<std::vector<op>> prog(1);
    int c = mc::choose(2);
    prog[0].push_back({LOOK[mc::choose(4)]});
    if (len > 1 && threads == 2) prog[0].push_back({LOOK[mc::choose(4)]});
    for (int t = 1; t < threads; ++t) { prog.emplace_back(); for (int i = 0; i < len; ++i) prog.back().push_back({CHANGE[mc::choose(10)]}); }
    sched::preemption_bound = -1;
    world w;
    if (c) for (int o : {reg_f, reg_t, add_r, get_a}) { w.run({o}); w.m.run({o}, 0); }
    // one registration info belongs to one thread at a time
    for (auto k : {std::array<int, 2>{reg_f, unreg_f}, std::array<int, 2>{reg_m, reg_m}, std::array<int, 2>{reg_t, unreg_t}}) { int n = 0; for (auto& t : prog) { bool u = false; for (auto& o : t) u |= o.w == k[0] || o.w == k[1]; n += u; } if (n > 1) return; }
    w.concurrent(prog);
}
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
    sched::setup();
    mc::section("look/2x1/all-schedules", [] { body(2, 1); });
    mc::section("look/2x2/all-schedules", [] { body(2, 2); });
    mc::section("look/3x1/all-schedules", [] { body(3, 1); });
    if (mc::thorough) mc::section("look/2x3/all-schedules", [] { body(2, 3); });
    });
}
