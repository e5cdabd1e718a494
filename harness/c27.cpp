// The compatibility layer: the registry of rules, objects, and what descriptions get from lists of features.
#include "kit.hpp"
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/mutation_rule.hpp>
#include <dynamix/v1compat/type_class.hpp>
#include <dynamix/type_mutation.hpp>
#include <algorithm>
#include <map>
#include <optional>
#include <set>
using namespace kit;
namespace v1 = dynamix::v1compat;

namespace {
// the domain of the compatibility layer lives as long as the program: its memory comes from here
struct faulty final : std::pmr::memory_resource {
    int countdown = -1; bool failed = false; size_t live = 0;
    void* do_allocate(size_t n, size_t a) override { if (countdown >= 0 && countdown-- == 0) { failed = true; throw std::bad_alloc(); } ++live; return std::pmr::new_delete_resource()->allocate(n, a); }
    void do_deallocate(void* p, size_t n, size_t a) override { --live; std::pmr::new_delete_resource()->deallocate(p, n, a); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
faulty* g_res() { static auto r = new faulty; return r; }
struct init_res { init_res() { std::pmr::set_default_resource(g_res()); } };
init_res g_init __attribute__((init_priority(150)));
std::vector<std::string> g_calls;
}
DYNAMIX_V1_MESSAGE_0(int, foo);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_0(int, bar); // has a default implementation
DYNAMIX_V1_MULTICAST_MESSAGE_1(void, baz, int, x);
DYNAMIX_V1_TYPE_CLASS(has_p);
DYNAMIX_V1_TYPE_CLASS(has_p_and_q);
struct a {}; struct b {}; struct c {}; struct d {}; // for the rules
struct P { int v = 0; int foo() { return v; } int bar() const { return v + 1; } };
struct Q { int v = 0; Q() = default; Q(const Q&) = delete; Q(Q&& o) noexcept : v(o.v) {} void baz(int x) { v = x; } int bar() const { return v + 2; } };
struct S { int v = 0; };
void S_baz(void* self, int x) { static_cast<S*>(self)->v = x; }
DYNAMIX_V1_DEFINE_MIXIN(a, v1::none); DYNAMIX_V1_DEFINE_MIXIN(b, v1::none); DYNAMIX_V1_DEFINE_MIXIN(c, v1::none); DYNAMIX_V1_DEFINE_MIXIN(d, v1::none);
DYNAMIX_V1_DEFINE_MIXIN(P, foo_msg & v1::bid(1, bar_msg));
DYNAMIX_V1_DEFINE_MIXIN(Q, baz_msg & v1::priority(2, bar_msg));
DYNAMIX_V1_DEFINE_MIXIN(S, v1::bind(baz_msg, S_baz) & v1::user_data(5));
DYNAMIX_V1_DEFINE_MESSAGE(foo); DYNAMIX_V1_DEFINE_MESSAGE(baz);
DYNAMIX_V1_DEFINE_MESSAGE_0_WITH_DEFAULT_IMPL(int, bar) { return 99; }
DYNAMIX_V1_DEFINE_TYPE_CLASS(has_p) { return type.has<P>(); }
DYNAMIX_V1_DEFINE_TYPE_CLASS(has_p_and_q) { return type.has<P>() && type.has<Q>(); }

namespace {
const mixin_info& mi(int k) { switch (k) { case 0: return _dynamix_get_mixin_info((a*)nullptr); case 1: return _dynamix_get_mixin_info((b*)nullptr); case 2: return _dynamix_get_mixin_info((c*)nullptr); default: return _dynamix_get_mixin_info((d*)nullptr); } }
// ---------------------------------------------------------------- the registry of rules
struct rule : v1::mutation_rule { // objects with a have the k-th mixin too
    int k; static int live, applied;
    rule(int k) : k(k) { ++live; } ~rule() { --live; k = -1; }
    void apply_to(type_mutation& m) override { ++applied; MC_CHECK(k > 0, "a destroyed rule is applied"); if (m.has(mi(0))) m.add_if_lacking(mi(k)); }
};
int rule::live, rule::applied;
const uint32_t ids[] = {0, 1, 2, 3, 4, 17, 0x7fffffff, 0xffffffff};
struct reg_world {
    world_guard wg;
    dynamix::domain& dom = v1::domain::instance();
    std::map<uint32_t, std::shared_ptr<rule>> m; // the model
    std::map<uint32_t, rule*> owned; // those only the registry owns
    std::vector<std::shared_ptr<rule>> kept;
    std::set<int> in_force() { std::set<int> r; for (auto& [id, p] : m) r.insert(p ? p->k : owned_k[id]); return r; }
    std::map<uint32_t, int> owned_k;
    void observe() {
        auto f = in_force();
        const mixin_info* q[] = {&mi(0)}; const mixin_info* q2[] = {&mi(1)};
        rule::applied = 0;
        auto& t = dom.get_type(q);
        std::string want = "a", got; for (int k : f) want += char('a' + k); for (auto i : t.mixins) got += i->name.to_std();
        MC_EQ(got, want, "the type with the rules in force");
        auto& t2 = dom.get_type(q2);
        MC_CHECK(t2.num_mixins() == 1 && t2.mixins[0] == &mi(1), "a type the rules don't apply to");
        v1::object o; v1::mutate(o).add<a>();
        MC_CHECK(&o.get_type() == &t, "objects get the same type");
        std::set<rule*> alive; for (auto& [id, p] : m) alive.insert(p ? p.get() : owned[id]); for (auto& p : kept) alive.insert(p.get());
        MC_EQ(rule::live, int(alive.size()), "rules which exist");


    }
    std::string key() { std::string s; std::map<rule*, int> no; for (auto& [id, p] : m) { auto r = p ? p.get() : owned[id]; if (!no.count(r)) no.insert({r, int(no.size())}); s += MC_STR(id << ":" << no[r] << "." << r->k << (p ? "s" : "o") << " "); } s += MC_STR("kept " << kept.size()); return s; }
    void add(uint32_t id, std::shared_ptr<rule> p) {
        MC_CHECK(!m.count(id), "the id " << id << " of a rule is in use");
        m[id] = p;
    }
    ~reg_world() {
        while (!m.empty()) {
            auto id = m.begin()->first; auto want = m.begin()->second ? m.begin()->second.get() : owned[id];
            auto r = v1::remove_mutation_rule(id); MC_CHECK(r.get() == want, "the rule which is removed at the end");
            m.erase(m.begin()); owned.erase(id);
        }
        kept.clear();
        MC_EQ(rule::live, 0, "rules which exist at the end");
        dom.garbage_collect_types();
    }
};
void registry(int len, bool all) {
    reg_world w;
    if (!mc::pruned()) w.observe();
    for (int k = 0; k < len; ++k) {
        if (!all && !mc::visit(w.key(), len - k)) return;
        int op = mc::choose(7), x = 0, y = 0;
        switch (op) {
        case 0: return;
        case 1: case 2: x = 1 + mc::choose(3); break; // new rules
        case 3: x = w.m.empty() ? -1 : mc::choose(int(w.m.size())); break; // the same rule once more
        case 4: x = mc::choose(int(sizeof ids / sizeof *ids)); y = mc::choose(2); break; // remove
        case 5: x = 1 + mc::choose(2); y = mc::choose(4); break; // new rule, allocations fail
        case 6: x = w.kept.empty() ? -1 : mc::choose(int(w.kept.size())); break; // again one which was removed
        }
        if (mc::pruned()) return;
        if (x < 0) return;
        switch (op) {
        case 1: { auto p = new rule(x); auto id = v1::add_mutation_rule(p); MC_STEP("add rule " << x << " -> " << id); w.add(id, nullptr); w.owned_k[id] = x; w.owned[id] = p; break; }
        case 2: { auto p = std::make_shared<rule>(x); auto id = v1::add_mutation_rule(p); MC_STEP("add shared rule " << x << " -> " << id); w.add(id, p); MC_CHECK(p.use_count() == 3, "the registry shares the rule"); break; }
        case 3: {
            auto i = std::next(w.m.begin(), x); if (!i->second) return; // only shared ones can be added again
            auto p = i->second; auto id = v1::add_mutation_rule(p); MC_STEP("add the rule of " << i->first << " again -> " << id); w.add(id, p); break; }
        case 4: {
            auto id = ids[x]; MC_STEP("remove " << id << (y ? " and keep it" : ""));
            auto i = w.m.find(id);
            auto r = v1::remove_mutation_rule(id);
            if (i == w.m.end()) { MC_CHECK(!r, "removing an unknown id gives nothing"); break; }
            MC_CHECK(r != nullptr, "the removed rule is given back");
            if (i->second) MC_CHECK(r.get() == i->second.get(), "the very rule is given back");
            else { auto q = dynamic_cast<rule*>(r.get()); MC_CHECK(q && q->k == w.owned_k[id], "the very rule is given back"); MC_CHECK(r.use_count() == 1, "the registry doesn't keep the rule"); }
            if (y) w.kept.push_back(std::static_pointer_cast<rule>(r));
            w.m.erase(i);
            break; }
        case 5: {
            MC_STEP("add rule " << x << ", allocation " << y << " fails");
            g_res()->countdown = y; g_res()->failed = false;
            uint32_t id = 0; auto p = std::make_shared<rule>(x);
            auto oc = outcome_of([&] { id = v1::add_mutation_rule(p); });
            g_res()->countdown = -1;
            MC_LOG("-> " << oc);
            MC_CHECK(oc.empty() || (oc == "bad_alloc" && g_res()->failed), "result: " << oc);
            if (oc.empty()) w.add(id, p); else MC_CHECK(p.use_count() == 1, "the registry doesn't keep a rule which couldn't be added");
            break; }
        case 6: { auto p = w.kept[size_t(x)]; w.kept.erase(w.kept.begin() + x); auto id = v1::add_mutation_rule(p); MC_STEP("add a removed rule " << p->k << " again -> " << id); w.add(id, p); break; }
        }
        w.observe();
        mc::outcome(w.key());
    }
}
// ---------------------------------------------------------------- objects
struct om { bool has[3] = {}; int v[3] = {}; };
struct obj_world {
    world_guard wg;
    std::unique_ptr<v1::object> o[2]; om m[2];
    static const v1::type_class& tc_p() { static const v1::type_class t([](dnmx_type_handle h) noexcept { return type::from_c_handle(h)->has<P>(); }); return t; }
    void observe(int i) {
        auto& x = *o[i]; auto& y = m[i]; const auto& cx = x;
        MC_CHECK(&x.get_domain() == &v1::domain::instance(), "objects live in the domain of the compatibility layer");
        MC_EQ(x.empty(), !(y.has[0] || y.has[1] || y.has[2]), "empty");
        MC_EQ(x.get<P>() != nullptr, y.has[0], "has P"); MC_EQ(x.get<Q>() != nullptr, y.has[1], "has Q"); MC_EQ(x.get<S>() != nullptr, y.has[2], "has S");
        if (y.has[0]) { MC_EQ(x.get<P>()->v, y.v[0], "value of P"); MC_CHECK(v1::object::of(x.get<P>()) == &x && v1::object::of(cx.get<P>()) == &x, "the object of a mixin"); MC_EQ(foo(x), y.v[0], "message"); }
        else MC_EQ(outcome_of([&] { foo(x); }), std::string("feature_error"), "a message which isn't implemented");
        if (y.has[1]) { MC_EQ(x.get<Q>()->v, y.v[1], "value of Q"); MC_CHECK(v1::object::of(x.get<Q>()) == &x, "the object of a mixin"); }
        if (y.has[2]) { MC_EQ(x.get<S>()->v, y.v[2], "value of S"); MC_CHECK(v1::object::of(x.get<S>()) == &x, "the object of a mixin"); }
        MC_EQ(x.implements(foo_msg), y.has[0], "implements foo"); MC_EQ(cx.implements(foo_msg_t::info), y.has[0], "implements foo, by info");
        MC_EQ(x.implements(baz_msg), y.has[1] || y.has[2], "implements baz"); MC_EQ(x.implements(bar_msg), true, "implements bar (by default)");
        MC_EQ(x.get_type().implements_strong<bar_msg_t>(), y.has[0] || y.has[1], "implements bar itself");
        MC_EQ(x.is_a<has_p>(), y.has[0], "type class"); MC_EQ(x.is_a<has_p_and_q>(), y.has[0] && y.has[1], "type class"); MC_EQ(x.is_a(tc_p()), y.has[0], "unregistered type class");
        MC_EQ(x.copyable(), !y.has[1], "copyable");
        if (!x.empty()) MC_EQ(bar(cx), y.has[0] ? y.v[0] + 1 : y.has[1] ? y.v[1] + 2 : 99, "multicast message with perks or by default");
    }
    std::string key() { std::string s; for (int i = 0; i < 2; ++i) { if (o[i]) for (int k = 0; k < 3; ++k) s += MC_STR(m[i].has[k] << m[i].v[k] << " "); else s += "- "; } return s; }
};
template <typename M> void toggle(obj_world& w, int i, int k) {
    auto& y = w.m[i];
    if (y.has[k]) { v1::mutate(*w.o[i]).remove<M>(); y.has[k] = false; y.v[k] = 0; }
    else { v1::mutate(*w.o[i]).add<M>(); y.has[k] = true; y.v[k] = 0; }
}
void objects(int len, bool all) {
    obj_world w;
    for (int k = 0; k < len; ++k) {
        if (!all && !mc::visit(w.key(), len - k)) break;
        int i = mc::choose(2), op = mc::choose(10);
        if (mc::pruned()) return;
        if (op == 0) break;
        auto& x = w.o[i]; auto& y = w.m[i];
        if (op == 1) { MC_STEP("new object " << i); x = std::make_unique<v1::object>(); y = {}; }
        else if (!x) break;
        else if (op <= 4) { MC_STEP("toggle mixin " << op - 2 << " of " << i); if (op == 2) toggle<P>(w, i, 0); else if (op == 3) toggle<Q>(w, i, 1); else toggle<S>(w, i, 2); }
        else if (op == 5) { MC_STEP("set values of " << i); for (int j = 0; j < 3; ++j) if (y.has[j]) { int v = ++y.v[j]; if (j == 0) x->get<P>()->v = v; else if (j == 1) x->get<Q>()->v = v; else x->get<S>()->v = v; } }
        else if (op == 6) {
            MC_STEP("the other becomes a copy of " << i);
            std::unique_ptr<v1::object> n; auto oc = outcome_of([&] { n = std::make_unique<v1::object>(x->copy()); });
            MC_EQ(oc.empty(), !y.has[1], "copy (" << oc << ")");
            if (n) { w.o[1 - i] = std::move(n); w.m[1 - i] = y; }
        }
        else if (op == 7) { MC_STEP("the other takes over " << i); w.o[1 - i] = std::make_unique<v1::object>(std::move(*x)); w.m[1 - i] = y; x = std::make_unique<v1::object>(); y = {}; }
        else if (op == 8) {
            if (!w.o[1 - i]) break;
            MC_STEP("assign the state of " << 1 - i << " to " << i);
            auto& z = w.m[1 - i]; auto oc = outcome_of([&] { x->copy_from(*w.o[1 - i]); });
            MC_EQ(oc.empty(), !z.has[1], "copy_from (" << oc << ")"); if (oc.empty()) y = z;
        }
        else if (op == 9) { MC_STEP("send baz to " << i); auto oc = outcome_of([&] { baz(*x, 7); }); MC_EQ(oc.empty(), y.has[1] || y.has[2], "baz (" << oc << ")"); if (y.has[1]) y.v[1] = 7; if (y.has[2]) y.v[2] = 7; }
        for (int j = 0; j < 2; ++j) if (w.o[j]) w.observe(j);
        mc::outcome(w.key());
    }
    for (auto& x : w.o) x.reset();
    if (!mc::pruned()) v1::domain::instance().garbage_collect_types();
}
// ---------------------------------------------------------------- lists of features
struct FM { int v; int foo() { return v + 10; } int bar() const { return v + 20; } void baz(int x) { v = x; } };
int bound_foo(void* m) { return static_cast<FM*>(m)->v + 30; }
struct feat { const feature_info* info; int bid, prio; void* payload; };
void parser(int len) {
    int n = mc::choose(len + 1); std::vector<int> ops; for (int i = 0; i < n; ++i) ops.push_back(mc::choose(16));
    bool later = mc::flip();
    if (mc::pruned()) return;
    world_guard wg;
    {
        util::mixin_info_data d; v1::feature_parser<FM> p(d, dnmx_make_sv_lit("ignored"));
        std::string name = util::get_type_name_from_typeid<FM>(); uintptr_t ud = 0; bool dep = false; std::vector<feat> fs;
        MC_CHECK(name.find("FM") != std::string::npos, "the name of the class");
        const feature_info *fo = &foo_msg_t::get_info_safe(), *ba = &bar_msg_t::get_info_safe(), *bz = &baz_msg_t::get_info_safe();
        auto check = [&] {
            MC_EQ(std::string(d.info.name.to_std()), name, "name"); MC_EQ(d.info.user_data, ud, "user data"); MC_EQ(d.info.dependency, dep, "dependency"); MC_CHECK(d.info.force_external, "mixins of the compatibility layer are external");
            MC_EQ(size_t(d.info.num_features), fs.size(), "features");
            for (size_t i = 0; i < fs.size(); ++i) { auto& f = d.info.features[i]; MC_CHECK(f.info == fs[i].info, "feature " << i); MC_EQ(f.bid, fs[i].bid, "bid of feature " << i); MC_EQ(f.priority, fs[i].prio, "priority of feature " << i); if (fs[i].payload) MC_CHECK(f.payload == fs[i].payload, "payload of feature " << i); }
        };
        check();
        for (int o : ops) {
            MC_STEP("feature " << o);
            v1::feature_parser<FM>* r = nullptr;
            switch (o) {
            case 0: r = &(p & foo_msg); fs.push_back({fo, 0, 0, nullptr}); break;
            case 1: r = &(p & bar_msg); fs.push_back({ba, 0, 0, nullptr}); break;
            case 2: r = &(p & v1::none); break;
            case 3: r = &(p & v1::user_data(77)); ud = 77; break;
            case 4: r = &(p & v1::user_data(0)); ud = 0; break;
            case 5: r = &(p & v1::bind(foo_msg, bound_foo)); fs.push_back({fo, 0, 0, reinterpret_cast<void*>(bound_foo)}); break;
            case 6: r = &(p & v1::mixin_name("other")); name = "other"; break;
            case 7: r = &(p & v1::dependency_mixin()); dep = true; break;
            case 8: r = &(p & v1::dependency_mixin(false)); dep = false; break;
            case 9: r = &(p & v1::bid(3, foo_msg)); fs.push_back({fo, 3, 0, nullptr}); break;
            case 10: r = &(p & v1::priority(-4, bar_msg)); fs.push_back({ba, 0, -4, nullptr}); break;
            case 11: r = &(p & v1::bid(5, v1::priority(6, bar_msg))); fs.push_back({ba, 5, 6, nullptr}); break;
            case 12: r = &(p & v1::priority(6, v1::bid(-5, baz_msg))); fs.push_back({bz, -5, 6, nullptr}); break;
            case 13: r = &(p & v1::upriority(8, foo_msg)); fs.push_back({fo, 0, 8, nullptr}); break;
            case 14: r = &(p & v1::upriority(1, v1::bid(2, v1::upriority(9, v1::bid(7, foo_msg))))); fs.push_back({fo, 2, 1, nullptr}); break; // the outermost counts
            case 15: r = &(p & foo_msg & v1::mixin_name("chained") & v1::bid(1, baz_msg)); fs.push_back({fo, 0, 0, nullptr}); fs.push_back({bz, 1, 0, nullptr}); name = "chained"; break;
            }
            MC_CHECK(r == &p, "parsers return themselves");
            check();
        }
        // what was described works
        std::set<const feature_info*> distinct; for (auto& f : fs) distinct.insert(f.info);
        if (distinct.size() == fs.size() && later) {
            std::vector<feature_info*> reg; domain dom("d");
            FM m{5};
            for (size_t i = 0; i < fs.size(); ++i) {
                auto& f = d.info.features[i];
                if (f.info == fo) { auto fn = reinterpret_cast<foo_msg_t::traits::func_t>(const_cast<void*>(f.payload)); MC_EQ(fn(&m), fs[i].payload ? 35 : 15, "what is called"); }
                if (f.info == ba) { auto fn = reinterpret_cast<bar_msg_t::traits::func_t>(const_cast<void*>(f.payload)); MC_EQ(fn(&m), 25, "what is called"); }
            }
        }
    }
}
}
int main(int argc, char** argv) {
    v1::domain::instance();
    mc::section("rules/all-states", [] { registry(mc::pick(5, 7), false); });
    mc::section("rules/all-sequences", [] { registry(mc::pick(3, 4), true); });
    mc::section("objects/all-states", [] { objects(mc::pick(7, 10), false); });
    mc::section("objects/all-sequences", [] { objects(mc::pick(4, 5), true); });
    mc::section("features/all-sequences", [] { parser(mc::pick(3, 4)); });
    return mc::main_(argc, argv, [] { setup_default(); });
}
