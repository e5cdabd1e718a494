// Lifetime of types: histories of objects, requests (with a rule), collections and (un)registrations.
#include "kit.hpp"
#include "wide.hpp"
#include <algorithm>
using namespace kit;

namespace {
enum { A, B, C, NM };
using list = std::vector<int>;
bool has(const list& l, int m) { return std::find(l.begin(), l.end(), m) != l.end(); }
std::string show(const list& l) { std::string s; for (int i : l) s += "abc"[i]; return "[" + s + "]"; }
bool g_fail;
int g_refuse = -1; // number of allocations of the domain before the one which is refused
enum { NREFUSE = 9 };

struct world {
    world_guard wg;
    res dres{"domain"}, ores{"objects"};
    std::deque<probe> ps;
    mixalloc ma{"mixin"};
    std::unique_ptr<domain> d;
    mutation_rule_info rule{};
    bool rule_on = false;
    static world*& W() { static world* w; return w; }
    std::map<list, const type*> types;
    struct slot { std::unique_ptr<object> o; list l; };
    int drops; // the rule: 0 - a adds b, 1 - a removes c, 2 - removes what isn't registered
    std::vector<slot> slots;
    explicit world(int nslots, int drops = 0) : drops(drops), slots(size_t(nslots)) {
        W() = this;
        ps.emplace_back("a", 8, 8); ps.emplace_back("b", 16, 4); ps.back().external(); ps.emplace_back("c", 3, 1); ps.back().uses(ma);
        d = std::make_unique<domain>("d", domain_settings{}, 0, nullptr, allocator(&dres));
        for (auto& p : ps) d->register_mixin(p.info);
        rule.name = dnmx_make_sv_lit("r");
        rule.apply = [](dnmx_type_mutation_handle h, uintptr_t) -> dnmx_error_return_t { auto& m = *type_mutation::from_c_handle(h); if (W()->drops == 2) { for (auto& p : W()->ps) if (!p.info.registered()) m.remove(p.info); } else if (m.has(W()->ps[A])) { if (W()->drops) m.remove(W()->ps[C]); else m.add_if_lacking(W()->ps[B]); } return 0; };
        g_fail = false;
        T().fault = [](fn f, const probe& p) { return g_fail && f == f_init && p.name == "b" ? 2 : 0; };
    }
    ~world() { slots.clear(); T().fault = nullptr; d.reset(); }
    const mixin_info& m(int i) { return ps[size_t(i)].info; }
    list apply(list l) { if (rule_on && drops == 2) l.erase(std::remove_if(l.begin(), l.end(), [this](int i) { return !m(i).registered(); }), l.end()); else if (rule_on && has(l, A)) { if (drops) l.erase(std::remove(l.begin(), l.end(), int(C)), l.end()); else if (!has(l, B)) l.push_back(B); } return l; }
    bool valid(const list& l) { for (int i : l) if (!m(i).registered()) return false; return true; }
    size_t count(const list& l) { size_t n = 0; for (auto& s : slots) if (s.o && s.l == l) ++n; return n; }
    const type* request(const list& l) {
        infos v; for (int i : l) v.push_back(&m(i));
        auto r = apply(l);
        const type* t = nullptr;
        auto e = outcome_of([&] { t = &d->get_type(v); });
        MC_EQ(e.empty(), valid(r), "outcome of the request of " << show(l) << " (" << e << ")");
        if (!t) return nullptr;
        list got; for (auto i : t->mixins) for (int k = 0; k < NM; ++k) if (i == &m(k)) got.push_back(k);
        MC_CHECK(got == r, "request of " << show(l) << " gave " << show(got));
        if (r.empty()) { MC_CHECK(t == &d->get_empty_type(), "empty type"); return t; }
        auto f = types.find(r);
        if (f == types.end()) types[r] = t;
        else MC_CHECK(f->second == t, "another type for " << show(r) << " while the first exists");
        return t;
    }
    void refused(const list& l, int k) { // a request which doesn't get the memory it needs
        if (!valid(apply(l))) return;
        infos v; for (int i : l) v.push_back(&m(i));
        dres.fault = [] { if (g_refuse < 0) return false; return g_refuse-- == 0; }; g_refuse = k;
        auto e = outcome_of([&] { d->get_type(v); });
        bool hit = g_refuse < 0; g_refuse = -1; dres.fault = nullptr;
        MC_CHECK(e.empty() || hit, "the request failed with " << e);
        auto t = apply(l); if (t.empty() || types.count(t)) return;
        infos want; for (int i : t) want.push_back(&m(i));
        domain_traverse(*d).traverse_types([&](const type& x) { if (type_mixins(x) == want) types[t] = &x; }); // it may have come into existence
    }
    void check() {
        std::set<const type*> seen;
        {
            domain_traverse tr(*d);
            tr.traverse_types([&](const type& t) { seen.insert(&t); });
            for (auto& t : types) {
                MC_CHECK(seen.count(t.second), "type " << show(t.first) << " is gone");
                MC_EQ(t.second->num_objects(), count(t.first), "number of objects of " << show(t.first));
                for (size_t i = 0; i < t.first.size(); ++i) MC_CHECK(t.second->mixins[i] == &m(t.first[i]), "mixins of an existing type changed");
            }
            tr.traverse_type_queries([&](auto q, const type& t) {
                MC_CHECK(&t == &d->get_empty_type() || seen.count(&t), "stored answer is a reclaimed type");
                for (auto i : q) MC_CHECK(i->registered(), "stored request has an unregistered mixin");
            });
        }
        MC_EQ(seen.size(), types.size(), "number of existing types");
        MC_EQ(d->num_types(), types.size(), "number of types");
        MC_EQ(d->get_empty_type().num_objects(), size_t(0), "objects of the empty type");
        for (auto& s : slots) if (s.o) {
            MC_CHECK(&s.o->get_type() == (s.l.empty() ? &d->get_empty_type() : types.at(s.l)), "type of an object");
            for (size_t i = 0; i < s.l.size(); ++i) T().val(s.o->get_at(mixin_index_t(i)));
        }
        MC_EQ(T().live.size(), [&] { size_t n = 0; for (auto& s : slots) n += s.l.size(); return n; }(), "live mixins");
    }
    std::string key() {
        std::string k(1, rule_on ? 'r' : '-');
        for (auto& p : ps) k += p.info.registered() ? '1' : '0';
        std::vector<std::string> ss; for (auto& s : slots) ss.push_back(s.o ? show(s.l) : "-");
        std::sort(ss.begin(), ss.end()); // objects are interchangeable
        for (auto& s : ss) k += s;
        for (auto& t : types) k += show(t.first) + "t";
        std::set<std::string> q;
        domain_traverse(*d).traverse_type_queries([&](itlib::span<const mixin_info* const> s, const type& t) { std::string r; for (auto i : s) r += std::string(i->name.to_std()); r += ">"; for (auto i : t.mixins) r += std::string(i->name.to_std()); q.insert(r); });
        for (auto& s : q) k += s + ";";
        return k;
    }
};

void run(bool dedup, int depth, int nslots, int drops = 0, bool refuse = false) {
    world w(nslots, drops);
    const std::vector<list> L = {{}, {A}, {A, B}, {B, A}, {C}, {A, C}, {C, B}};
    int n = int(L.size());
    for (int i = 0; i < depth; ++i) {
        // request; create/mutate slot to type; failing creation/mutation; copy; move; destroy; gc; (un)register; rule
        int op = mc::choose(n + n + 2 + 1 + 1 + 1 + 1 + NM + 1 + (refuse ? n : 0));
        if (mc::pruned()) return;
        if (op < n) { MC_STEP("request " << show(L[size_t(op)])); w.request(L[size_t(op)]); }
        else if ((op -= n) < n) {
            int s = mc::choose(nslots); if (mc::pruned()) return;
            auto& x = w.slots[size_t(s)];
            if (x.o && x.l == w.apply(L[size_t(op)])) return;
            MC_STEP((x.o ? "mutate" : "create") << " object " << s << " to " << show(L[size_t(op)]));
            auto t = w.request(L[size_t(op)]);
            if (t) { if (x.o) x.o->reset_type(*t); else x.o = std::make_unique<object>(*t, allocator(&w.ores)); x.l = w.apply(L[size_t(op)]); }
        }
        else if ((op -= n) < 2) {
            int s = mc::choose(nslots); if (mc::pruned()) return;
            auto& x = w.slots[size_t(s)];
            const list& l = op ? L[2] : L[6];
            if (has(x.l, B) || !has(w.apply(l), B)) return; // nothing to fail
            MC_STEP("failing " << (x.o ? "mutation" : "creation") << " of object " << s << " to " << show(l));
            auto t = w.request(l);
            if (t) {
                g_fail = true;
                auto e = outcome_of([&] { if (x.o) x.o->reset_type(*t); else object o(*t, allocator(&w.ores)); });
                g_fail = false;
                MC_CHECK(!e.empty(), "failure is reported");
            }
        }
        else if ((op -= 2) == 0) {
            int s = mc::choose(nslots), t = mc::choose(nslots); if (mc::pruned()) return;
            auto &x = w.slots[size_t(s)], &y = w.slots[size_t(t)];
            if (s == t || !x.o) return;
            MC_STEP("copy object " << s << " to " << t);
            if (y.o) y.o->copy_from(*x.o); else y.o = std::make_unique<object>(x.o->copy(allocator(&w.ores)));
            y.l = x.l;
        }
        else if (op == 1) {
            int s = mc::choose(nslots), t = mc::choose(nslots); if (mc::pruned()) return;
            auto &x = w.slots[size_t(s)], &y = w.slots[size_t(t)];
            if (s == t || !x.o) return;
            MC_STEP("move object " << s << " to " << t);
            if (y.o) *y.o = std::move(*x.o); else y.o = std::make_unique<object>(std::move(*x.o));
            y.l = x.l; x.l.clear();
        }
        else if (op == 2) {
            int s = mc::choose(2 * nslots); if (mc::pruned()) return;
            auto& x = w.slots[size_t(s / 2)];
            if (!x.o) return;
            if (s & 1) { if (x.l.empty()) return; MC_STEP("clear object " << s / 2); x.o->clear(); }
            else { MC_STEP("destroy object " << s / 2); x.o.reset(); }
            x.l.clear();
        }
        else if (op == 3) {
            MC_STEP("collect types");
            w.d->garbage_collect_types();
            for (auto it = w.types.begin(); it != w.types.end();) if (w.count(it->first)) ++it; else it = w.types.erase(it);
        }
        else if (op < 4 + NM) {
            int k = op - 4;
            auto& info = w.ps[size_t(k)].info;
            if (info.registered()) {
                for (auto& s : w.slots) if (has(s.l, k)) return; // precondition: no objects with it
                MC_STEP("unregister " << info.name.to_std());
                w.d->unregister_mixin(info);
                for (auto it = w.types.begin(); it != w.types.end();) if (has(it->first, k)) it = w.types.erase(it); else ++it;
            }
            else { MC_STEP("register " << info.name.to_std()); w.d->register_mixin(info); }
        }
        else if (op > 4 + NM) {
            int k = mc::choose(NREFUSE); if (mc::pruned()) return;
            auto& l = L[size_t(op - 5 - NM)];
            MC_STEP("request " << show(l) << ", whose allocation " << k << " is refused");
            w.refused(l, k);
        }
        else {
            w.rule_on = !w.rule_on;
            MC_STEP((w.rule_on ? "add" : "remove") << (drops == 2 ? " rule which removes what isn't registered" : drops ? " rule a removes c" : " rule a=>b"));
            if (w.rule_on) w.d->add_mutation_rule(w.rule); else w.d->remove_mutation_rule(w.rule);
        }
        w.check();
        auto k = w.key();
        mc::outcome(k);
        if (dedup && !mc::visit(k, depth - 1 - i)) return;
    }
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("removing-rule/all-states", [] { run(true, pick(5, 8), 1, 1); });
        mc::section("removing-rule/all-sequences", [] { run(false, pick(3, 5), 1, 1); });
        mc::section("registration-rule/all-states", [] { run(true, pick(5, 8), 1, 2); });
        mc::section("registration-rule/all-sequences", [] { run(false, pick(3, 5), 1, 2); });
        mc::section("one-object/all-states", [] { run(true, pick(6, 9), 1); });
        mc::section("two-objects/all-states", [] { run(true, pick(5, 7), 2); });
        mc::section("two-objects/all-sequences", [] { run(false, pick(4, 5), 2); });
        mc::section("refused-requests/all-states", [] { run(true, pick(4, 6), 1, 0, true); });
        mc::section("refused-requests/all-sequences", [] { run(false, pick(2, 3), 1, 0, true); });
        mc::section("three-objects/all-states", [] { run(true, pick(4, 6), 3); });
        mc::section("many-objects", [] { wide::population(mc::thorough); });
        mc::section("many-types", [] { wide::collection(pick(129, 513)); });
    });
}
