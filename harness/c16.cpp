// Mutations with overridden initializations and stepwise mutations: who is initialized, how, and in which order.
#include "kit.hpp"
#include "wide2.hpp"
#include <dynamix/mutate.hpp>
#include <dynamix/object_mutation.hpp>
#include <dnmx/mutate.h>
#include <algorithm>
#include <variant>
using namespace kit;

namespace {
using list = std::vector<int>;
std::string show(const list& l) { std::string s; for (int i : l) s += char('a' + i); return "[" + s + "]"; }
bool has(const list& l, int m) { return std::find(l.begin(), l.end(), m) != l.end(); }
enum { NM = 5 }; // e: removes c by a rule

struct world* g_w;
struct ev { char kind; int mixin; int val; bool operator==(const ev& o) const { return kind == o.kind && mixin == o.mixin && val == o.val; } };
std::string show(const std::vector<ev>& l) { std::string s; for (auto& e : l) s += MC_STR(e.kind << char('a' + e.mixin) << '=' << e.val << ' '); return s; }
std::vector<ev> g_events;

struct world {
    world_guard wg;
    res dres{"domain"}, ores{"objects"};
    std::deque<probe> ps;
    mutation_rule_info rule{};
    std::unique_ptr<domain> d;
    std::unique_ptr<object> x;
    list l; std::map<int, int> v; // the object
    world() {
        g_w = this; g_events.clear();
        d = std::make_unique<domain>("d", domain_settings{}, 0, nullptr, allocator(&dres));
        ps.emplace_back("a", 8, 8); ps.emplace_back("b", 12, 4).external(); ps.emplace_back("c", 3, 1); ps.emplace_back("d", 16, 16); ps.emplace_back("e", 4, 4);
        for (auto& p : ps) { d->register_mixin(p.info); p.info.init = s_init; }
        rule.name = dnmx_sv::from_std("e removes c");
        rule.apply = [](dnmx_type_mutation_handle h, uintptr_t) -> dnmx_error_return_t { auto t = type_mutation::from_c_handle(h); if (t->has("e")) while (t->has("c")) t->remove("c"); return 0; };
        d->add_mutation_rule(rule);
    }
    ~world() { x.reset(); d.reset(); g_w = nullptr; }
    static dnmx_error_return_t s_init(const mixin_info* i, void* m) { g_events.push_back({'d', g_w->id(i), 0}); return probe::s_init(i, m); }
    const mixin_info& mi(int i) { return ps[size_t(i)].info; }
    int id(const mixin_info* i) { for (int k = 0; k < NM; ++k) if (&mi(k) == i) return k; mc::fail("unknown mixin"); }
    infos mis(const list& q) { infos r; for (int i : q) r.push_back(&mi(i)); return r; }
    const type& ty(const list& q) { auto r = mis(q); return d->get_type(r); }
    list rules(list q) { if (has(q, 4)) q.erase(std::remove(q.begin(), q.end(), 2), q.end()); return q; }
    void make(const list& q) {
        x = std::make_unique<object>(ty(q), allocator(&ores)); l = rules(q);
        for (int i : l) v[i] = probe::alive(&mi(i), x->get(mi(i)), "make").val;
        g_events.clear();
    }
    // the object has been changed to type q; over: values of overridden ones
    void changed(const list& q, std::map<int, int> over) {
        std::vector<ev> e; std::map<int, int> nv;
        for (int i : q) {
            if (has(l, i)) { nv[i] = v[i]; continue; }
            e.push_back(over.count(i) ? ev{'o', i, over[i]} : ev{'d', i, 0});
            int val = probe::alive(&mi(i), x->get(mi(i)), "new mixin").val;
            if (over.count(i)) MC_EQ(val, over[i], "value of overridden " << char('a' + i));
            nv[i] = val;
        }
        MC_CHECK(g_events == e, "initializations: " << show(g_events) << " expected: " << show(e));
        l = q; v = nv;
        check();
    }
    void unchanged() { check(); }
    void check() {
        block_set b;
        MC_CHECK(type_mixins(x->get_type()) == mis(l), "type " << names(type_mixins(x->get_type())) << " expected " << show(l));
        check_layout(*x, ores, b);
        for (int i : l) MC_EQ(probe::alive(&mi(i), x->get(mi(i)), "check").val, v[i], "value of " << char('a' + i));
        MC_EQ(T().live.size(), l.size(), "live mixins");
        MC_EQ(b.blocks.size(), ores.live.size(), "blocks");
        MC_CHECK(def_res().live.empty(), "temporary memory");
    }
};

// class used with operations with constructor arguments: it's the mixin "a"
struct R {
    char bytes[8];
    R(int val, mc::uptr<int> check, const std::string& str) {
        if (!check || *check != val || str != "x") mc::fail("wrong constructor arguments");
        g_events.push_back({'o', 0, val});
        T().born(g_w->mi(0), this, val);
    }
};
const mixin_info& _dynamix_get_mixin_info(const R*) { return g_w->mi(0); }

struct F { // initialization function
    int val;
    void operator()(init_new_args a) const {
        int i = g_w->id(&a.info);
        if (a.target_type.mixins[a.target_index] != &a.info) mc::fail("index of the mixin to be initialized");
        g_events.push_back({'o', i, val});
        T().born(a.info, a.mixin_buf, val);
    }
};

// ---------------------------------------------------------------- C++ operations
struct any_op {
    std::variant<std::monostate, mutate_op_remove_by_info, mutate_op_remove_by_name, mutate_op_just_add_by_info, mutate_op_just_add_by_name, mutate_op_to_back_by_info, mutate_op_to_back_by_name,
        add_mixin_op_with_func_by_name<F>, add_mixin_op_with_func_by_info<F>, add_mixin_op_with_args<R, int, mc::uptr<int>, std::string>,
        construct_mixin_op_with_func_by_name<F>, object_mutate_op_with_func<F>, object_mutate_op_with_args<R, int, mc::uptr<int>, std::string>> op;
    void apply_to_type_mutation(type_mutation& m) {
        std::visit([&](auto& o) {
            using O = std::decay_t<decltype(o)>;
            if constexpr (!std::is_same_v<O, std::monostate> && !std::is_same_v<O, construct_mixin_op_with_func_by_name<F>> && !std::is_same_v<O, object_mutate_op_with_func<F>> && !std::is_same_v<O, object_mutate_op_with_args<R, int, mc::uptr<int>, std::string>>)
                o.apply_to_type_mutation(m);
        }, op);
    }
    object_mutate_op* to_obj_mutate(object& x) {
        return std::visit([&](auto& o) -> object_mutate_op* { if constexpr (std::is_same_v<std::decay_t<decltype(o)>, std::monostate>) return nullptr; else return o.to_obj_mutate(x); }, op);
    }
};
enum { k_none, k_add_c, k_add_name_b, k_remove_a, k_remove_name_c, k_remove_unknown, k_to_back_a, k_to_back_name_b, k_addf_b, k_addf_name_c, k_addf_d, k_addargs_a, k_addf_name_e, k_mutate_count,
    k_con_a = k_mutate_count, k_con_name_b, k_con_c, k_conargs_a, k_con_unknown, k_con_name_d, k_add_unknown, k_all };
const char* kind_names[] = {"-", "add c", "add 'b'", "remove a", "remove 'c'", "remove 'zz'", "to_back a", "to_back 'b'", "add b with func", "add 'c' with func", "add d with func", "add<a>(args)", "add 'e' with func", "construct a", "construct 'b'", "construct c", "construct<a>(args)", "construct 'zz'", "construct 'd'", "add 'zz'"};
int affected(int k) { // mixin whose initialization is overridden
    switch (k) { case k_addf_b: case k_con_name_b: return 1; case k_addf_name_c: case k_con_c: return 2; case k_addf_d: case k_con_name_d: return 3; case k_addargs_a: case k_con_a: case k_conargs_a: return 0; case k_addf_name_e: return 4; }
    return -1;
}
void emplace(any_op& o, world& w, int k, int val) {
    switch (k) {
    case k_none: break;
    case k_add_c: o.op.emplace<mutate_op_just_add_by_info>(dynamix::add(w.mi(2))); break;
    case k_add_name_b: o.op.emplace<mutate_op_just_add_by_name>(dynamix::add("b")); break;
    case k_add_unknown: o.op.emplace<mutate_op_just_add_by_name>(dynamix::add("zz")); break;
    case k_remove_a: o.op.emplace<mutate_op_remove_by_info>(dynamix::remove(w.mi(0))); break;
    case k_remove_name_c: o.op.emplace<mutate_op_remove_by_name>(dynamix::remove("c")); break;
    case k_remove_unknown: o.op.emplace<mutate_op_remove_by_name>(dynamix::remove("zz")); break;
    case k_to_back_a: o.op.emplace<mutate_op_to_back_by_info>(to_back(w.mi(0))); break;
    case k_to_back_name_b: o.op.emplace<mutate_op_to_back_by_name>(to_back("b")); break;
    case k_addf_b: o.op.emplace<add_mixin_op_with_func_by_info<F>>(w.mi(1), F{val}); break;
    case k_addf_d: o.op.emplace<add_mixin_op_with_func_by_info<F>>(w.mi(3), F{val}); break;
    case k_addf_name_c: o.op.emplace<add_mixin_op_with_func_by_name<F>>("c", F{val}); break;
    case k_addf_name_e: o.op.emplace<add_mixin_op_with_func_by_name<F>>("e", F{val}); break;
    case k_addargs_a: o.op.emplace<add_mixin_op_with_args<R, int, mc::uptr<int>, std::string>>(int(val), std::make_unique<int>(val), std::string("x")); break;
    case k_con_a: o.op.emplace<object_mutate_op_with_func<F>>(w.mi(0), F{val}); break;
    case k_con_c: o.op.emplace<object_mutate_op_with_func<F>>(w.mi(2), F{val}); break;
    case k_con_name_b: o.op.emplace<construct_mixin_op_with_func_by_name<F>>("b", F{val}); break;
    case k_con_name_d: o.op.emplace<construct_mixin_op_with_func_by_name<F>>("d", F{val}); break;
    case k_con_unknown: o.op.emplace<construct_mixin_op_with_func_by_name<F>>("zz", F{val}); break;
    case k_conargs_a: o.op.emplace<object_mutate_op_with_args<R, int, mc::uptr<int>, std::string>>(int(val), std::make_unique<int>(val), std::string("x")); break;
    }
}
// effect of the edits on the list; false: the request must fail
bool edit(list& l, int k) {
    auto rem = [&](int m) { auto f = std::find(l.begin(), l.end(), m); bool r = f != l.end(); if (r) l.erase(f); return r; };
    switch (k) {
    case k_add_c: case k_addf_name_c: l.push_back(2); break;
    case k_add_name_b: case k_addf_b: l.push_back(1); break;
    case k_addf_d: l.push_back(3); break;
    case k_addargs_a: l.push_back(0); break;
    case k_addf_name_e: l.push_back(4); break;
    case k_remove_a: rem(0); break;
    case k_remove_name_c: rem(2); break;
    case k_to_back_a: if (!rem(0)) return false; l.push_back(0); break;
    case k_to_back_name_b: if (!rem(1)) return false; l.push_back(1); break;
    case k_add_unknown: return false;
    }
    return true;
}
bool dups(const list& l) { for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) if (l[i] == l[j]) return true; return false; }
bool invalid_request(world& w, list& l) {
    bool changed = w.rules(l) != l; l = w.rules(l); (void)changed;
    return dups(l);
}

const std::vector<list> SRC = {{}, {0}, {1, 0}, {2}, {3, 2, 0}, {0, 1, 4}};
const std::vector<list> DST = {{}, {0}, {1}, {0, 1}, {1, 0}, {2, 1, 0}, {3, 0, 2, 1}, {4, 3, 0}, {0, 1, 2, 3}};

void cpp_mutate(int nops) {
    auto& src = SRC[size_t(mc::choose(int(SRC.size())))];
    int k[4] = {};
    static const int extra[] = {k_add_unknown};
    for (int i = 0; i < nops; ++i) { int c = mc::choose(k_mutate_count + 1); k[i] = c == k_mutate_count ? extra[0] : c; }
    if (mc::pruned()) return;
    world w; w.make(src);
    any_op o[4]; for (int i = 0; i < nops; ++i) emplace(o[i], w, k[i], 1000 + i);
    list l = w.l; bool ok = true;
    for (int i = 0; i < nops && ok; ++i) ok = edit(l, k[i]);
    if (ok) {
        // duplicates are found after the rules
        list q = l;
        if (invalid_request(w, q)) ok = false;
        l = q;
    }
    auto out = outcome_of([&] {
        if (nops == 2) mutate(*w.x, o[0], o[1]);
        else if (nops == 3) mutate(*w.x, o[0], o[1], o[2]);
        else mutate(*w.x, o[0], o[1], o[2], o[3]);
    });
    MC_STEP("mutate " << show(w.l) << " by " << kind_names[k[0]] << ", " << kind_names[k[1]] << ", " << kind_names[k[2]] << ", " << kind_names[k[3]] << " -> " << (out.empty() ? show(l) : out));
    mc::outcome(show(l) + out);
    if (!ok) { MC_EQ(out, std::string("type_error"), "an impossible mutation"); MC_CHECK(g_events.empty(), "initializations by an impossible mutation"); w.unchanged(); return; }
    MC_EQ(out, std::string(), "a possible mutation");
    std::map<int, int> over;
    for (int i = nops; i-- > 0;) if (affected(k[i]) >= 0) over[affected(k[i])] = 1000 + i;
    w.changed(l, over);
}

void cpp_mutate_to(int nops) {
    auto& src = SRC[size_t(mc::choose(int(SRC.size())))]; auto& dst = DST[size_t(mc::choose(int(DST.size())))];
    int k[4] = {};
    static const int use[] = {k_none, k_con_a, k_con_name_b, k_con_c, k_conargs_a, k_con_unknown, k_con_name_d, k_addf_b, k_addf_name_c, k_addargs_a, k_remove_a, k_add_name_b};
    for (int i = 0; i < nops; ++i) k[i] = use[mc::choose(12)];
    if (mc::pruned()) return;
    // adding by name resolves the name when the type is edited, which doesn't happen here: it's ignored
    world w; w.make(src);
    any_op o[4]; for (int i = 0; i < nops; ++i) emplace(o[i], w, k[i], 1000 + i);
    list l = w.rules(dst);
    auto& t = w.ty(dst);
    auto out = outcome_of([&] {
        if (nops == 2) mutate_to(*w.x, t, o[0], o[1]);
        else if (nops == 3) mutate_to(*w.x, t, o[0], o[1], o[2]);
        else mutate_to(*w.x, t, o[0], o[1], o[2], o[3]);
    });
    MC_STEP("mutate " << show(w.l) << " to " << show(l) << " with " << kind_names[k[0]] << ", " << kind_names[k[1]] << ", " << kind_names[k[2]] << ", " << kind_names[k[3]] << " -> " << (out.empty() ? "done" : out));
    MC_EQ(out, std::string(), "mutate_to");
    std::map<int, int> over;
    for (int i = nops; i-- > 0;) if (affected(k[i]) >= 0 && k[i] != k_addf_name_c) over[affected(k[i])] = 1000 + i;
    mc::outcome(show(g_events));
    w.changed(l, over);
}

// many operations for the same mixins in one call: the first one for a mixin counts
template <size_t... I> void call_n(object& x, const type* t, any_op* o, std::index_sequence<I...>) { if (t) mutate_to(x, *t, o[I]...); else mutate(x, o[I]...); }
void many_ops() {
    static const int ns[] = {5, 8, 15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 65};
    int n = ns[mc::choose(13)], m = 1 + mc::choose(4), pat = mc::choose(6), first = mc::choose(4); auto& src = SRC[size_t(mc::choose(int(SRC.size())))]; auto& dst = DST[size_t(mc::choose(int(DST.size())))];
    bool edits = mc::flip(); // operations which also edit the type: every second one removes what was added
    if (mc::pruned()) return;
    world w; w.make(src);
    std::vector<any_op> o; o.resize(size_t(n)); std::map<int, int> over; list l = w.l; bool ok = true;
    for (int i = 0; i < n; ++i) {
        int a = pat == 0 ? i % m : pat == 1 ? i * m / n : pat == 2 ? (n - 1 - i) % m : pat == 3 ? (i * i / 2) % m : pat == 4 ? (i == n / 2 ? 0 : m - 1) : (i < n - m ? 0 : n - 1 - i);
        a = (a + first) % 4;
        int k;
        if (edits) {
            static const int adds[] = {k_addargs_a, k_addf_b, k_addf_name_c, k_addf_d};
            k = i % 2 ? (a % 2 ? k_remove_name_c : k_remove_a) : adds[a / 2 * 2];
            ok = ok && edit(l, k);
        }
        else { static const int cons[] = {k_con_a, k_con_name_b, k_con_c, k_con_name_d}; k = cons[a]; if (a == 0 && i % 3 == 0) k = k_conargs_a; }
        emplace(o[size_t(i)], w, k, 1000 + i);
        if (affected(k) >= 0 && !over.count(affected(k))) over[affected(k)] = 1000 + i;
    }
    const type* t = nullptr;
    if (!edits) { t = &w.ty(dst); l = w.rules(dst); }
    else { if (&dst != &DST[0]) return; if (ok && invalid_request(w, l)) ok = false; }
    auto x = [&] { switch (n) { case 5: return call_n(*w.x, t, o.data(), std::make_index_sequence<5>()); case 8: return call_n(*w.x, t, o.data(), std::make_index_sequence<8>()); case 15: return call_n(*w.x, t, o.data(), std::make_index_sequence<15>());
        case 16: return call_n(*w.x, t, o.data(), std::make_index_sequence<16>()); case 17: return call_n(*w.x, t, o.data(), std::make_index_sequence<17>()); case 18: return call_n(*w.x, t, o.data(), std::make_index_sequence<18>());
        case 24: return call_n(*w.x, t, o.data(), std::make_index_sequence<24>()); case 31: return call_n(*w.x, t, o.data(), std::make_index_sequence<31>()); case 32: return call_n(*w.x, t, o.data(), std::make_index_sequence<32>());
        case 33: return call_n(*w.x, t, o.data(), std::make_index_sequence<33>()); case 34: return call_n(*w.x, t, o.data(), std::make_index_sequence<34>()); case 48: return call_n(*w.x, t, o.data(), std::make_index_sequence<48>()); default: return call_n(*w.x, t, o.data(), std::make_index_sequence<65>()); } };
    auto out = outcome_of(x);
    MC_STEP((edits ? "mutate " : "mutate_to ") << show(w.l) << " to " << show(l) << " with " << n << " operations for " << m << " mixins, pattern " << pat << " from " << first << " -> " << (out.empty() ? "done" : out));
    mc::outcome(MC_STR(show(l) << show(g_events) << out));
    if (!ok) { MC_EQ(out, std::string("type_error"), "an impossible mutation"); MC_CHECK(g_events.empty(), "initializations by an impossible mutation"); w.unchanged(); return; }
    MC_EQ(out, std::string(), "a possible mutation");
    w.changed(l, over);
}

// ---------------------------------------------------------------- C operations
dnmx_error_return_t c_init(dnmx_mutate_func_args a) {
    if (!a.info || !a.mixin_buf || !a.target_type || a.source_type) mc::fail("arguments of an init function");
    if (type::from_c_handle(a.target_type)->mixins[a.target_index] != a.info) mc::fail("index of the mixin to be initialized");
    g_events.push_back({'o', g_w->id(a.info), int(a.user_data)});
    T().born(*a.info, a.mixin_buf, int(a.user_data));
    return 0;
}
dnmx_error_return_t c_update(dnmx_mutate_func_args a) {
    if (!a.info || !a.mixin_buf || !a.target_type || !a.source_type) mc::fail("arguments of an update function");
    if (type::from_c_handle(a.target_type)->mixins[a.target_index] != a.info || type::from_c_handle(a.source_type)->mixins[a.source_index] != a.info) mc::fail("index of the mixin to be updated");
    probe::alive(a.info, a.mixin_buf, "update").val = int(a.user_data);
    g_events.push_back({'u', g_w->id(a.info), int(a.user_data)});
    return 0;
}

void c_mutate(int nops) {
    auto& src = SRC[size_t(mc::choose(int(SRC.size())))];
    struct c_op { int op, mixin; bool name, func; };
    static const std::vector<c_op> use = {
        {dnmx_mutate_op_add, 0, false, true}, {dnmx_mutate_op_add, 1, true, true}, {dnmx_mutate_op_add, 2, false, false}, {dnmx_mutate_op_add, 2, true, true}, {dnmx_mutate_op_add, 3, false, true}, {dnmx_mutate_op_add, 4, true, false}, {dnmx_mutate_op_add, -1, true, true},
        {dnmx_mutate_op_remove, 0, true, true}, {dnmx_mutate_op_remove, 2, false, false}, {dnmx_mutate_op_remove, -1, true, false}, {dnmx_mutate_op_to_back, 0, false, false}, {dnmx_mutate_op_to_back, 1, true, true}, {77, 0, false, false}};
    std::vector<c_op> k; for (int i = 0; i < nops; ++i) k.push_back(use[size_t(mc::choose(int(use.size())))]);
    if (mc::pruned()) return;
    world w; w.make(src);
    std::vector<dnmx_mutate_op> ops; list l = w.l; bool ok = true; std::map<int, int> over; std::string desc;
    for (int i = 0; i < nops; ++i) {
        auto& c = k[size_t(i)];
        ops.push_back({c.op, c.name ? nullptr : &w.mi(c.mixin), c.mixin < 0 ? dnmx_sv::from_std("zz") : c.name ? w.mi(c.mixin).name : dnmx_sv{}, c.func ? c_init : nullptr, uintptr_t(1000 + i)});
        desc += MC_STR(c.op << (c.name ? "'" : "") << (c.mixin < 0 ? '-' : char('a' + c.mixin)) << (c.func ? "f " : " "));
        if (c.op == dnmx_mutate_op_add && c.func && !over.count(c.mixin)) over[c.mixin] = 1000 + i;
        if (!ok) continue;
        auto f = std::find(l.begin(), l.end(), c.mixin);
        if (c.op == dnmx_mutate_op_add) { if (c.mixin < 0) ok = false; else l.push_back(c.mixin); }
        else if (c.op == dnmx_mutate_op_remove) { if (f != l.end()) l.erase(f); }
        else if (c.op == dnmx_mutate_op_to_back) { if (f == l.end()) ok = false; else { l.erase(f); l.push_back(c.mixin); } }
        else ok = false;
    }
    if (ok && invalid_request(w, l)) ok = false;
    auto err = dnmx_mutate(w.x->to_c_hanlde(), ops.data(), uint32_t(ops.size()));
    MC_STEP("C mutate " << show(w.l) << " by " << desc << " -> " << err);
    mc::outcome(show(l) + char('0' + !!err));
    MC_EQ(!err, ok, "result");
    if (!ok) { MC_CHECK(g_events.empty(), "initializations by an impossible mutation"); w.unchanged(); return; }
    w.changed(l, over);
}

void c_mutate_to(int nops) {
    auto& src = SRC[size_t(mc::choose(int(SRC.size())))]; auto& dst = DST[size_t(mc::choose(int(DST.size())))];
    struct c_over { int mixin; bool name, init, update; };
    static const std::vector<c_over> use = {{0, false, true, true}, {0, true, false, true}, {1, true, true, false}, {1, false, true, true}, {2, false, false, false}, {2, true, true, true}, {3, false, true, false}, {-1, true, true, true}};
    std::vector<c_over> k; for (int i = 0; i < nops; ++i) k.push_back(use[size_t(mc::choose(int(use.size())))]);
    if (mc::pruned()) return;
    world w; w.make(src);
    std::vector<dnmx_mutate_to_override> os; std::map<int, int> first;
    for (int i = 0; i < nops; ++i) {
        auto& c = k[size_t(i)];
        os.push_back({c.name ? nullptr : &w.mi(c.mixin), c.mixin < 0 ? dnmx_sv::from_std("zz") : c.name ? w.mi(c.mixin).name : dnmx_sv{}, c.init ? c_init : nullptr, c.update ? c_update : nullptr, uintptr_t(1000 + i)});
        if (!first.count(c.mixin)) first[c.mixin] = i;
    }
    auto& t = w.ty(dst); list l = w.rules(dst);
    auto err = dnmx_mutate_to(w.x->to_c_hanlde(), &t, os.data(), uint32_t(os.size()));
    MC_STEP("C mutate " << show(w.l) << " to " << show(l) << " with " << nops << " overrides -> " << err);
    MC_EQ(err, 0, "result");
    std::vector<ev> e; 
    for (int i : l) {
        bool o = first.count(i); auto ov = o ? k[size_t(first[i])] : c_over{};
        int val = o ? 1000 + first[i] : 0;
        if (has(w.l, i)) { if (o && ov.update) { e.push_back({'u', i, val}); w.v[i] = val; } }
        else if (o && ov.init) { e.push_back({'o', i, val}); w.v[i] = val; MC_EQ(probe::alive(&w.mi(i), w.x->get(w.mi(i)), "new").val, val, "overridden initialization"); }
        else { e.push_back({'d', i, 0}); w.v[i] = probe::alive(&w.mi(i), w.x->get(w.mi(i)), "new").val; MC_CHECK(w.v[i] >= 100 && w.v[i] < 1000, "default initialization"); }
    }
    MC_CHECK(g_events == e, "calls: " << show(g_events) << " expected: " << show(e));
    mc::outcome(show(e));
    w.l = l; w.check();
}

// ---------------------------------------------------------------- steps
void steps(int depth) {
    static const std::vector<list> TO = {{}, {0}, {1, 0}, {2, 1, 0}, {3, 0, 2, 1}};
    auto& src = SRC[size_t(mc::choose(int(SRC.size())))]; auto& dst = TO[size_t(mc::choose(int(TO.size())))];
    bool leave = mc::flip(); // by an exception
    world w; if (!mc::pruned()) w.make(src);
    else return;
    list l = w.rules(dst); int n = int(l.size());
    auto& t = w.ty(dst);
    std::map<int, int> over, newv = w.v; std::vector<ev> e;
    int done = 0; bool refused = false, rolled = false, fin = false, same = l == w.l;
    auto init = [&](int k, int val) { int m = l[size_t(k)]; if (has(w.l, m)) return; if (val) { e.push_back({'o', m, val}); over[m] = val; } else e.push_back({'d', m, 0}); };
    auto upd = [&](int k, int val) { int m = l[size_t(k)]; if (has(w.l, m)) { e.push_back({'u', m, val}); newv[m] = val; } };
    int state_upd = 0; (void)state_upd;
    try {
        object_mutation mu(*w.x, t);
        MC_STEP("mutation of " << show(w.l) << " to " << show(l));
        for (int i = 0; i < depth && !rolled && !fin; ++i) {
            enum { s_end, s_next, s_each, s_each_upto, s_construct, s_default, s_default_upto, s_at, s_rollback, s_finalize, s_count };
            int k = mc::choose(s_count);
            int arg = k == s_at || k == s_each_upto || k == s_default_upto ? mc::choose(n + 2) : 0;
            if (mc::pruned()) return;
            if (k == s_end) break;
            int val = 1000 + i;
            auto u = [&](update_common_args a) {
                if (a.source_type.mixins[a.source_index] != &a.info || a.target_type.mixins[a.target_index] != &a.info) mc::fail("indices of the mixin to be updated");
                probe::alive(&a.info, a.mixin_buf, "update").val = val; g_events.push_back({'u', w.id(&a.info), val});
            };
            auto upto = [&](int to, int v, bool updates) { for (; done < to && done < n; ++done) { init(done, v); if (updates) upd(done, val); } };
            bool refuse = false;
            std::string out;
            switch (k) {
            case s_next: MC_STEP("update next"); out = outcome_of([&] { mu.update_next_mixin(F{val}, u); }); upto(done + 1, val, true); break;
            case s_each: MC_STEP("update each"); mu.update_each_mixin(F{val}, u); upto(n, val, true); break;
            case s_each_upto: MC_STEP("update each up to " << arg); mu.update_each_mixin(F{val}, u, mixin_index_t(arg)); upto(arg, val, true); break;
            case s_construct: MC_STEP("construct each new"); mu.construct_each_new_mixin(F{val}); upto(n, val, false); break;
            case s_default: MC_STEP("default construct"); mu.default_construct_each_new_mixin(); upto(n, 0, false); break;
            case s_default_upto: MC_STEP("default construct up to " << arg); mu.default_construct_each_new_mixin(mixin_index_t(arg)); upto(arg, 0, false); break;
            case s_at:
                refuse = arg < done || arg > n;
                MC_STEP("update at " << arg << (refuse ? " (out of order)" : ""));
                if (refuse) { refused = true; mu.update_at(mixin_index_t(arg), F{val}, u); mc::fail("a step out of order isn't refused"); }
                mu.update_at(mixin_index_t(arg), F{val}, u);
                upto(arg, 0, false); if (arg < n) upto(arg + 1, val, true);
                break;
            case s_rollback: if (leave) return; MC_STEP("rollback"); mu.rollback(); rolled = true; break;
            case s_finalize: // has no effect when it isn't complete
                MC_STEP("finalize" << (done < n ? " (incomplete)" : "")); mu.finalize(); fin = done == n; break;
            }
            MC_EQ(out, std::string(), "step");
            if (!rolled && !fin) MC_EQ(mu.complete(), done == n, "complete()");
            MC_CHECK(g_events == e, "calls: " << show(g_events) << " expected: " << show(e));
        }
        // once more: no effect
        int again = rolled || fin ? mc::choose(rolled ? 3 : 2) : 0;
        if (again == 1) { MC_STEP("finalize again"); mu.finalize(); }
        if (again == 2) { MC_STEP("roll back again"); mu.rollback(); }
        if (rolled) MC_CHECK(!mu.complete(), "a mutation which was rolled back is complete");
        if (leave && !rolled) throw 1;
    }
    catch (int) {}
    catch (object_error&) { if (!refused) mc::fail("unexpected error"); }
    MC_STEP("end: " << (rolled ? "rolled back" : fin ? "finalized" : refused ? "refused" : leave ? "left by an exception" : "completed"));
    // common mixins which were already updated stay so
    for (int m : w.l) if (has(l, m)) w.v[m] = newv[m];
    if (rolled || refused || (leave && !fin)) {
        MC_CHECK(g_events == e, "calls: " << show(g_events) << " expected: " << show(e));
        w.check();
    }
    else {
        for (; done < n; ++done) init(done, 0);
        MC_CHECK(g_events == e, "calls: " << show(g_events) << " expected: " << show(e));
        for (int m : l) if (!has(w.l, m)) { int v = probe::alive(&w.mi(m), w.x->get(w.mi(m)), "new").val; if (over.count(m)) MC_EQ(v, over[m], "overridden"); w.v[m] = v; }
        for (int m : w.l) if (!has(l, m)) w.v.erase(m);
        w.l = l;
        w.check();
    }
    (void)same;
    mc::outcome(show(e));
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("mutate/all-operations", [] { cpp_mutate(pick(3, 4)); });
        mc::section("mutate_to/all-operations", [] { cpp_mutate_to(pick(3, 4)); });
        mc::section("mutate-c/all-operations", [] { c_mutate(pick(3, 4)); });
        mc::section("mutate_to-c/all-overrides", [] { c_mutate_to(pick(3, 4)); });
        mc::section("steps/all-sequences", [] { steps(pick(3, 5)); });
        mc::section("many-operations", many_ops);
        mc::section("many-initializations", [] { wide::initializations(mc::pick(257, 1025)); });
    });
}
