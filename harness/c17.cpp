// Type mutations: every sequence of edits (C++ by description, by name, by class; C) against the same edits of a plain list.
#include "kit.hpp"
#include "wide2.hpp"
#include <dnmx/domain.h>
#include <dynamix/mutate.hpp>
#include <dnmx/type_mutation.h>
#include <algorithm>
using namespace kit;

namespace {
enum { A, B, B2, U, NM }; // B2 has the name of B, U isn't registered
struct world* g_w;
const std::vector<std::string> NAMES = {"a", "b", "u", "zz", ""};
const std::vector<std::string> FNAMES = {"f", "g", "d", "x", ""};

using list = std::vector<int>;
std::string show(const list& l) { static const char* n[] = {"a", "b", "b2", "u"}; std::string s = "["; for (int i : l) s += std::string(s.size() > 1 ? " " : "") + n[i]; return s + "]"; }

struct world {
    world_guard wg;
    res dres{"domain"}, mres{"mutation"};
    feature_info f[4] = {};
    std::deque<probe> ps;
    std::unique_ptr<domain> d, other;
    probe foreign{"zz"}; // registered in another domain
    std::unique_ptr<type_mutation> m; dnmx_type_mutation_handle h = nullptr; bool c_api = false;
    list l;
    world() {
        g_w = this;
        domain_settings s{}; s.allow_duplicate_mixin_names = true;
        d = std::make_unique<domain>("d", s, 0, nullptr, allocator(&dres));
        other = std::make_unique<domain>("o", domain_settings{}, 0, nullptr, allocator(&dres));
        static const char* fn[] = {"f", "g", "d", "x"};
        for (int i = 0; i < 4; ++i) { f[i].id = invalid_feature_id; f[i].name = dnmx_sv::from_std(fn[i]); }
        f[2].default_payload = reinterpret_cast<dnmx_feature_payload>(&f[2]); // implemented by default
        ps.emplace_back("a").feature(f[0], nullptr); ps.emplace_back("b").feature(f[1], nullptr, 1).feature(f[0], nullptr, 2); ps.emplace_back("b").feature(f[2], nullptr); ps.emplace_back("u").feature(f[1], nullptr);
        for (int i = 0; i < U; ++i) d->register_mixin(ps[size_t(i)].info);
        d->register_feature(f[3]);
        other->register_mixin(foreign.info);
    }
    ~world() { m.reset(); if (c_api && h) dnmx_destroy_unused_type_mutation(h); d.reset(); other.reset(); g_w = nullptr; }
    const mixin_info& mi(int i) { return ps[size_t(i)].info; }
    type_mutation& mut() { return c_api ? *type_mutation::from_c_handle(h) : *m; }
    int id(const mixin_info* i) { for (int k = 0; k < NM; ++k) if (&mi(k) == i) return k; mc::fail("unknown mixin in the list"); }
    // reference
    int find(const std::string& n) { for (size_t i = 0; i < l.size(); ++i) if (mi(l[i]).name.to_std() == n) return int(i); return -1; }
    int find(int k) { auto f = std::find(l.begin(), l.end(), k); return f == l.end() ? -1 : int(f - l.begin()); }
    int registered(const std::string& n) { return n == "a" ? A : n == "b" ? B : -1; }
    void dedup() { list r; for (size_t i = 0; i < l.size(); ++i) if (std::find(l.begin() + long(i) + 1, l.end(), l[i]) == l.end()) r.push_back(l[i]); l = r; }
    void check() {
        auto& mu = mut();
        list got; for (auto i : mu.mixins) got.push_back(id(i));
        MC_CHECK(got == l, "list is " << show(got) << " expected " << show(l));
        MC_CHECK(&mu.dom == d.get(), "domain of the mutation");
        if (c_api) {
            dnmx_mixin_index_t n = 77; auto p = dnmx_type_mutation_get_mixins(h, &n);
            MC_EQ(size_t(n), l.size(), "number of mixins");
            for (size_t i = 0; i < l.size(); ++i) MC_CHECK(p[i] == &mi(l[i]), "mixins of the C interface");
            MC_CHECK(dnmx_type_mutation_get_domain(h) == d->to_c_hanlde(), "domain");
        }
        for (int k = 0; k < NM; ++k) {
            bool e = find(k) >= 0;
            if (c_api) MC_EQ(dnmx_type_mutation_has(h, &mi(k)), e, "has " << k);
            MC_EQ(mu.has(mi(k)), e, "has " << k); MC_EQ(mu.lacks(mi(k)), !e, "lacks " << k);
        }
        MC_CHECK(!mu.has(foreign), "has a mixin of another domain");
        for (auto& n : NAMES) {
            int i = find(n); const mixin_info* e = i < 0 ? nullptr : &mi(l[size_t(i)]);
            MC_CHECK((c_api ? dnmx_type_mutation_has_by_name(h, dnmx_sv::from_std(n)) : mu.has(n)) == e, "has '" << n << "'");
            MC_EQ(mu.lacks(n), !e, "lacks '" << n << "'");
        }
        for (int k = 0; k < 4; ++k) {
            const feature_info* e = nullptr;
            for (int i : l) for (auto& fe : mi(i).features_span()) if (fe.info == &f[k]) e = &f[k];
            MC_EQ(c_api ? dnmx_type_mutation_implements_strong(h, &f[k]) : mu.implements_strong(f[k]), !!e, "implements_strong " << f[k].name.to_std());
            MC_EQ(c_api ? dnmx_type_mutation_implements(h, &f[k]) : mu.implements(f[k]), e || f[k].default_payload, "implements " << f[k].name.to_std());
            MC_CHECK((c_api ? dnmx_type_mutation_implements_strong_by_name(h, f[k].name) : mu.implements_strong(f[k].name.to_std())) == e, "implements_strong '" << f[k].name.to_std() << "'");
        }
        MC_CHECK(!mu.implements_strong(""), "implements_strong ''");
        if (!c_api) {
            MC_CHECK(mres.live.size() <= 1, "memory of the mutation");
            MC_CHECK(def_res().live.empty(), "the mutation uses memory which isn't its own");
        }
    }
};
struct CB {}; // bound to b
const mixin_info& _dynamix_get_mixin_info(const CB*) { return g_w->mi(B); }

void start(world& w, bool c) {
    w.c_api = c;
    int k = mc::choose(4);
    static const list from[] = {{}, {A}, {B2, A, B}};
    if (mc::pruned()) return;
    if (k == 0) {
        if (c) w.h = dnmx_create_type_mutation_empty(w.d->to_c_hanlde()); else w.m = std::make_unique<type_mutation>(*w.d, allocator(&w.mres));
    }
    else {
        w.l = from[k - 1];
        infos r; for (int i : w.l) r.push_back(&w.mi(i));
        auto& t = w.d->get_type(r);
        if (c) w.h = dnmx_create_type_mutation_from_type(&t); else w.m = std::make_unique<type_mutation>(t, allocator(&w.mres));
    }
    MC_STEP("mutation of " << show(w.l));
    w.check();
}

void edits(bool c, int depth, bool merge) {
    world w; start(w, c);
    if (mc::pruned()) return;
    for (int step = 0; step < depth; ++step) {
        if (merge && !mc::visit(show(w.l), depth - step)) return;
        enum { e_end, e_add, e_add_if, e_back, e_remove, e_dedup, e_add_name, e_safe_add, e_add_if_name, e_safe_add_if, e_back_name, e_remove_name, e_set, e_tadd, e_tadd_if, e_tback, e_tremove };
        static const std::vector<std::pair<int, int>> cpp = {{e_end, 1}, {e_add, NM}, {e_add_if, NM}, {e_back, NM}, {e_remove, NM}, {e_dedup, 1}, {e_add_name, 5}, {e_safe_add, 5}, {e_add_if_name, 5}, {e_safe_add_if, 5}, {e_back_name, 5}, {e_remove_name, 5}, {e_tadd, 1}, {e_tadd_if, 1}, {e_tback, 1}, {e_tremove, 1}};
        static const std::vector<std::pair<int, int>> ccc = {{e_end, 1}, {e_add, NM}, {e_add_if, NM}, {e_back, NM}, {e_remove, NM}, {e_dedup, 1}, {e_back_name, 5}, {e_remove_name, 5}, {e_set, 3}};
        auto& ops = c ? ccc : cpp;
        int total = 0; for (auto& o : ops) total += o.second;
        int k = mc::choose(total), op = 0;
        for (auto& o : ops) { if (k < o.second) { op = o.first; break; } k -= o.second; }
        if (mc::pruned()) return;
        if (op == e_end) break;
        auto& mu = w.mut(); auto& l = w.l; std::string out;
        const std::string& n = NAMES[size_t(k)];
        auto svn = dnmx_sv::from_std(n);
        auto ms = [](const mixin_info* i) { return i ? i->name.to_std() : std::string_view("nothing"); }; (void)ms;
        switch (op) {
        case e_add: MC_STEP("add " << k); if (c) MC_EQ(dnmx_type_mutation_add(w.h, &w.mi(k)), true, "add"); else mu.add(w.mi(k)); l.push_back(k); break;
        case e_add_if: {
            MC_STEP("add if lacking " << k); bool e = w.find(k) < 0;
            MC_EQ(c ? dnmx_type_mutation_add_if_lacking(w.h, &w.mi(k)) : mu.add_if_lacking(w.mi(k)), e, "add_if_lacking");
            if (e) l.push_back(k);
            break; }
        case e_back: {
            MC_STEP("to back " << k); int i = w.find(k);
            if (c) MC_EQ(dnmx_type_mutation_to_back(w.h, &w.mi(k)), i >= 0, "to_back");
            else { out = outcome_of([&] { mu.to_back(w.mi(k)); }); MC_EQ(out, std::string(i < 0 ? "type_error" : ""), "to_back"); }
            if (i >= 0) { l.erase(l.begin() + i); l.push_back(k); }
            break; }
        case e_remove: {
            MC_STEP("remove " << k); int i = w.find(k);
            MC_EQ(c ? dnmx_type_mutation_remove(w.h, &w.mi(k)) : mu.remove(w.mi(k)), i >= 0, "remove");
            if (i >= 0) l.erase(l.begin() + i);
            break; }
        case e_dedup: MC_STEP("dedup"); if (c) dnmx_type_mutation_dedup(w.h); else mu.dedup(); w.dedup(); break;
        case e_add_name: {
            MC_STEP("add '" << n << "'"); int e = w.registered(n); const mixin_info* got = nullptr;
            out = outcome_of([&] { got = &mu.add(n); });
            MC_EQ(out, std::string(e < 0 ? "type_error" : ""), "add by name"); MC_CHECK(got == (e < 0 ? nullptr : &w.mi(e)), "added " << ms(got));
            if (e >= 0) l.push_back(e);
            break; }
        case e_safe_add: {
            MC_STEP("safe add '" << n << "'"); int e = w.registered(n);
            MC_CHECK(mu.safe_add(n) == (e < 0 ? nullptr : &w.mi(e)), "safe_add");
            if (e >= 0) l.push_back(e);
            break; }
        case e_add_if_name: {
            MC_STEP("add if lacking '" << n << "'"); bool there = w.find(n) >= 0; int e = w.registered(n); const mixin_info* got = nullptr;
            out = outcome_of([&] { got = mu.add_if_lacking(n); });
            MC_EQ(out, std::string(there || e >= 0 ? "" : "type_error"), "add_if_lacking by name");
            MC_CHECK(got == (there || e < 0 ? nullptr : &w.mi(e)), "added " << ms(got));
            if (!there && e >= 0) l.push_back(e);
            break; }
        case e_safe_add_if: {
            MC_STEP("safe add if lacking '" << n << "'"); bool there = w.find(n) >= 0; int e = w.registered(n);
            MC_CHECK(mu.safe_add_if_lacking(n) == (there || e < 0 ? nullptr : &w.mi(e)), "safe_add_if_lacking");
            if (!there && e >= 0) l.push_back(e);
            break; }
        case e_back_name: {
            MC_STEP("to back '" << n << "'"); int i = w.find(n); const mixin_info* got = nullptr;
            if (c) got = dnmx_type_mutation_to_back_by_name(w.h, svn);
            else { out = outcome_of([&] { got = &mu.to_back(n); }); MC_EQ(out, std::string(i < 0 ? "type_error" : ""), "to_back by name"); }
            MC_CHECK(got == (i < 0 ? nullptr : &w.mi(l[size_t(i)])), "moved " << ms(got));
            if (i >= 0) { int v = l[size_t(i)]; l.erase(l.begin() + i); l.push_back(v); }
            break; }
        case e_remove_name: {
            MC_STEP("remove '" << n << "'"); int i = w.find(n);
            auto got = c ? dnmx_type_mutation_remove_by_name(w.h, svn) : mu.remove(n);
            MC_CHECK(got == (i < 0 ? nullptr : &w.mi(l[size_t(i)])), "removed " << ms(got));
            if (i >= 0) l.erase(l.begin() + i);
            break; }
        case e_set: {
            static const list to[] = {{}, {B, A}, {A, A, U, B2, A}};
            MC_STEP("set " << show(to[k])); infos r; for (int i : to[k]) r.push_back(&w.mi(i));
            MC_EQ(dnmx_type_mutation_set_mixins(w.h, r.data(), dnmx_mixin_index_t(r.size())), true, "set"); l = to[k];
            break; }
        case e_tadd: MC_STEP("add<b>"); MC_CHECK(&mu.add<CB>() == &w.mi(B), "add<>"); l.push_back(B); break;
        case e_tadd_if: { MC_STEP("add_if_lacking<b>"); bool e = w.find(B) < 0; MC_EQ(mu.add_if_lacking<CB>(), e, "add_if_lacking<>"); if (e) l.push_back(B); break; }
        case e_tback: {
            MC_STEP("to_back<b>"); int i = w.find(B); out = outcome_of([&] { mu.to_back<CB>(); });
            MC_EQ(out, std::string(i < 0 ? "type_error" : ""), "to_back<>");
            if (i >= 0) { l.erase(l.begin() + i); l.push_back(B); }
            break; }
        case e_tremove: { MC_STEP("remove<b>"); int i = w.find(B); MC_EQ(mu.remove<CB>(), i >= 0, "remove<>"); if (i >= 0) l.erase(l.begin() + i); break; }
        }
        w.check();
        if (!c) { MC_EQ(mu.has<CB>(), w.find(B) >= 0, "has<>"); MC_EQ(mu.lacks<CB>(), w.find(B) < 0, "lacks<>"); }
        MC_LOG("   " << show(l));
        mc::outcome(show(l));
    }
    // the type which is requested by the mutation
    list l = w.l; bool valid = w.find(U) < 0;
    for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) if (l[i] == l[j]) valid = false;
    const type* t = nullptr;
    if (c) { t = type::from_c_handle(dnmx_get_type(w.d->to_c_hanlde(), &w.h)); MC_CHECK(!w.h, "the mutation is consumed"); MC_EQ(!!t, valid, "request of " << show(l)); }
    else { auto out = outcome_of([&] { t = &w.d->get_type(std::move(*w.m)); }); MC_EQ(out, std::string(valid ? "" : "type_error"), "request of " << show(l)); }
    if (t) { list got; for (auto i : t->mixins) got.push_back(w.id(i)); MC_CHECK(got == l, "requested " << show(l) << " got " << show(got)); }
}

// the same edits through a gradual mutation of an object
void gradual(int depth) {
    static const list from[] = {{}, {A}, {B, A}};
    int start = mc::choose(3), ending = mc::choose(3); // left to the destructor, applied, cancelled
    if (mc::pruned()) return;
    world w; res ores("object");
    auto ty = [&](const list& l) -> const type& { infos r; for (int i : l) r.push_back(&w.mi(i)); return w.d->get_type(r); };
    object o(ty(from[start]), allocator(&ores));
    std::map<int, int> vals; for (int i : from[start]) vals[i] = T().val(o.get(w.mi(i)));
    list& l = w.l; l = from[start];
    bool failed = false; std::string out;
    out = outcome_of([&] {
        gradual_mutation g(o);
        for (int step = 0; step < depth; ++step) {
            enum { e_end, e_add, e_addn, e_addt, e_if, e_ifn, e_ift, e_rem, e_remn, e_remt, e_back, e_backn, e_backt };
            static const std::vector<std::pair<int, int>> ops = {{e_end, 1}, {e_add, 3}, {e_addn, 4}, {e_addt, 1}, {e_if, 3}, {e_ifn, 4}, {e_ift, 1}, {e_rem, 3}, {e_remn, 4}, {e_remt, 1}, {e_back, 3}, {e_backn, 4}, {e_backt, 1}};
            int total = 0; for (auto& x : ops) total += x.second;
            int k = mc::choose(total), op = 0;
            for (auto& x : ops) { if (k < x.second) { op = x.first; break; } k -= x.second; }
            if (mc::pruned()) { g.cancel(); return; }
            if (op == e_end) break;
            const std::string& n = NAMES[size_t(k)];
            auto rem = [&](int i) { if (i < 0) return -1; int v = l[size_t(i)]; l.erase(l.begin() + i); return v; };
            switch (op) { // reference
            case e_add: l.push_back(k); break;
            case e_addt: l.push_back(B); break;
            case e_addn: if (w.registered(n) < 0) failed = true; else l.push_back(w.registered(n)); break;
            case e_if: if (w.find(k) < 0) l.push_back(k); break;
            case e_ift: if (w.find(B) < 0) l.push_back(B); break;
            case e_ifn: if (w.find(n) < 0) { if (w.registered(n) < 0) failed = true; else l.push_back(w.registered(n)); } break;
            case e_rem: rem(w.find(k)); break;
            case e_remt: rem(w.find(B)); break;
            case e_remn: rem(w.find(n)); break;
            case e_back: case e_backt: case e_backn: { int v = rem(op == e_back ? w.find(k) : op == e_backt ? w.find(B) : w.find(n)); if (v < 0) failed = true; else l.push_back(v); break; }
            }
            MC_STEP("gradual op " << op << ' ' << k << (failed ? " (fails)" : "") << " -> " << show(l));
            auto& mi = w.mi(k < NM ? k : 0);
            gradual_mutation* same = &g;
            switch (op) {
            case e_add: same = &g.add(mi); break; case e_addn: same = &g.add(n); break; case e_addt: same = &g.add<CB>(); break;
            case e_if: same = &g.add_if_lacking(mi); break; case e_ifn: same = &g.add_if_lacking(n); break; case e_ift: same = &g.add_if_lacking<CB>(); break;
            case e_rem: same = &g.remove(mi); break; case e_remn: same = &g.remove(n); break; case e_remt: same = &g.remove<CB>(); break;
            case e_back: same = &g.to_back(mi); break; case e_backn: same = &g.to_back(n); break; case e_backt: same = &g.to_back<CB>(); break;
            }
            if (same != &g) mc::fail("an edit doesn't return the mutation");
            if (failed) mc::fail("an impossible edit isn't reported");
            if (type_mixins(o.get_type()).size() != from[start].size()) mc::fail("an edit of an unfinished mutation changes the object");
        }
        for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) if (l[i] == l[j]) failed = true;
        if (ending == 1) g.apply();
        if (ending == 2) g.cancel();
    });
    if (mc::pruned()) return;
    bool dup = false; for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) if (l[i] == l[j]) dup = true;
    if (ending == 2 && dup && out.empty()) failed = false;
    MC_EQ(out, std::string(failed ? "type_error" : ""), "outcome of the mutation to " << show(l));
    list e = failed || ending == 2 ? from[start] : l;
    list got; for (auto i : o.get_type().mixins) got.push_back(w.id(i));
    MC_CHECK(got == e, "the object is " << show(got) << " expected " << show(e));
    for (int i : e) if (vals.count(i)) MC_EQ(T().val(o.get(w.mi(i))), vals[i], "value of a mixin which stays");
    MC_EQ(T().live.size(), e.size(), "live mixins");
    mc::outcome(show(e) + out);
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("cpp/all-sequences", [] { edits(false, pick(3, 4), false); });
        mc::section("cpp/all-states", [] { edits(false, pick(5, 6), true); });
        mc::section("c/all-sequences", [] { edits(true, pick(3, 5), false); });
        mc::section("c/all-states", [] { edits(true, pick(5, 7), true); });
        mc::section("gradual/all-sequences", [] { gradual(pick(3, 4)); });
        mc::section("long-lists", [] { wide::type_edits(mc::pick(513, 1025)); });
    });
}
