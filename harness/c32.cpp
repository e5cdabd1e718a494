// Threads with their own objects of common types: all schedules, against the result of each thread alone and the counts of objects.
#include "sched.hpp"
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/mutate.hpp>
#include <optional>
using namespace kit;

DYNAMIX_DECLARE_SIMPLE_MSG(uni_msg, int(const object&, int));
DYNAMIX_DECLARE_SIMPLE_MSG(multi_msg, int(const object&, int&));
struct MA; struct MB; struct MC;
namespace { mixin_info* g_infos[3]; }
const mixin_info& _dynamix_get_mixin_info(const MA*) { return *g_infos[0]; }
const mixin_info& _dynamix_get_mixin_info(const MB*) { return *g_infos[1]; }
const mixin_info& _dynamix_get_mixin_info(const MC*) { return *g_infos[2]; }
DYNAMIX_DEFINE_SIMPLE_MSG(uni_msg, unicast);
DYNAMIX_DEFINE_SIMPLE_MSG(multi_msg, multicast);

namespace {
template <int I, bool NoexceptMove>
struct base {
    int v = 7 + I, magic = 5000 + I;
    base() { sched::count(1); }
    base(const base& o) : v(o.v) { o.check(); sched::count(1); }
    base(base&& o) noexcept(NoexceptMove) : v(o.v) { o.check(); o.v = -1; sched::count(1); }
    base& operator=(const base& o) { o.check(); check(); v = o.v; return *this; }
    base& operator=(base&& o) noexcept(NoexceptMove) { o.check(); check(); v = o.v; o.v = -1; return *this; }
    ~base() { check(); magic = 0; sched::count(-1); }
    bool operator==(const base& o) const { o.check(); check(); return v == o.v; }
    bool operator<(const base& o) const { o.check(); check(); return v < o.v; }
    void check() const { if (magic != 5000 + I) mc::fail("a mixin isn't alive"); }
};
}
struct MA : base<0, true> {};
struct MB : base<1, true> { alignas(32) char pad[32]; };
struct MC : base<2, false> {};

namespace {
using list = std::vector<int>;
std::string lstr(const list& l) { std::string r = "["; for (int i : l) r += "abc"[i]; return r + "]"; }
struct mo { bool exists = false; list l; std::map<int, int> v; };
enum what { create, create_own, copy, move_, drop_x, drop_y, add_c, remove_a, reset_ab, call, set, copy_from_s, cmp_s, copy_s, gc, req, clear_x, look, fail_, by_name, n_what };
const char* wname(int w) { static const char* n[] = {"x = new [ab]", "x = new own", "y = copy of x", "y = move of x", "destroy x", "destroy y", "add c to x", "remove a from x", "reset x to [ab]", "call x", "set x.a", "x copies from s", "compare x with s", "y = copy of s", "collect", "count objects of [ab]", "clear x", "look at x and its type", "failing requests", "mutate x by name"}; return n[w]; }
struct op { int w; std::string str() const { return wname(w); } };
const list OWN[] = {{2, 0}, {2, 1}, {2, 0, 1}};
const list AB{0, 1};
struct model {
    mo x[3], y[3], s;
    std::set<list> types, kept;
    static std::string show(const mo& o) { if (!o.exists) return "-"; std::string r = lstr(o.l); for (int i : o.l) r += std::to_string(o.v.at(i)) + ","; return r; }
    std::string res(int t, const std::string& r = "") const { return r + " x=" + show(x[t]) + " y=" + show(y[t]); }
    void to(mo& o, const list& l) { for (auto i = o.v.begin(); i != o.v.end();) if (std::count(l.begin(), l.end(), i->first)) ++i; else i = o.v.erase(i); for (int i : l) if (!o.v.count(i)) o.v[i] = 7 + i; o.l = l; if (!l.empty()) types.insert(l); }
    size_t count(const list& l) const { size_t n = kept.count(l); if (s.l == l) ++n; for (int t = 0; t < 3; ++t) n += (x[t].exists && x[t].l == l) + (y[t].exists && y[t].l == l); return n; }
    std::string run(const op& o, int t) {
        auto &X = x[t], &Y = y[t];
        switch (o.w) {
        case create: X = {}; X.exists = true; to(X, AB); break;
        case create_own: X = {}; X.exists = true; to(X, OWN[t]); break;
        case copy: if (X.exists) Y = X; break;
        case move_: if (X.exists) { Y = X; X.l.clear(); X.v.clear(); } break;
        case drop_x: X = {}; break;
        case drop_y: Y = {}; break;
        case add_c: if (X.exists && !std::count(X.l.begin(), X.l.end(), 2)) { auto l = X.l; l.push_back(2); to(X, l); } break;
        case remove_a: if (X.exists) { auto l = X.l; l.erase(std::remove(l.begin(), l.end(), 0), l.end()); to(X, l); } break;
        case reset_ab: if (X.exists) to(X, AB); break;
        case clear_x: if (X.exists) to(X, {}); break;
        case call: {
            if (!X.exists) break;
            std::vector<int> im; for (int i : {0, 1}) if (std::count(X.l.begin(), X.l.end(), i)) im.push_back(i); // priorities: a before b
            if (im.empty()) return res(t, "feature_error");
            int acc = 0; for (size_t k = im.size(); k-- > 0;) acc = acc * 10 + im[k] + 1;
            return res(t, "u" + std::to_string(X.v[im[0]] * 100 + 5) + "m" + std::to_string(im[0]) + "," + std::to_string(acc));
        }
        case set: if (X.exists && X.v.count(0)) X.v[0] = 60 + t; break;
        case copy_from_s: if (X.exists) { X.l = s.l; X.v = s.v; } break;
        case cmp_s: if (X.exists) { bool e = X.l == s.l && X.v == s.v; return res(t, e ? "equal" : "different"); } break;
        case copy_s: Y = s; break;
        case look: {
            if (!X.exists) break;
            std::string r;
            for (int i = 0; i < 3; ++i) { auto f = std::find(X.l.begin(), X.l.end(), i); r += f == X.l.end() ? "-" : std::to_string(f - X.l.begin()); }
            bool a = std::count(X.l.begin(), X.l.end(), 0), b = std::count(X.l.begin(), X.l.end(), 1), c = std::count(X.l.begin(), X.l.end(), 2);
            r += a || b ? "i" : "n"; r += a && b ? "x" : "e"; r += c ? "c" : "o"; r += X.l == AB ? "=" : "#";
            return res(t, r);
        }
        case fail_: return res(t, "fails");
        case by_name: if (X.exists) { auto l = X.l; auto f = std::find(l.begin(), l.end(), 1); if (f != l.end()) { l.erase(f); to(X, l); } l.push_back(1); to(X, l); if (!std::count(l.begin(), l.end(), 2)) { l.push_back(2); to(X, l); } } break;
        case gc: return "ok"; // the types are visited one after the other: see the comparison of the final states
        case req: return ""; // a moment inside of other operations may be seen
        }
        return res(t);
    }
    // has_unused: which of the types without objects are there
    std::string state(const std::set<list>* unused = nullptr) const { std::string r; for (auto& t : types) if (!unused || count(t) || unused->count(t)) r += lstr(t) + "*" + std::to_string(count(t)) + " "; return r; }
};
const char* const NAME[] = {"a", "b", "c"};
const type_class tc = {dnmx_make_sv_lit("has c"), [](dnmx_type_handle t) noexcept { return type::from_c_handle(t)->has("c"); }};
template <typename F> std::string message(F f) { try { f(); } catch (std::exception& e) { return e.what(); } return "-"; }
using hist = sched::history<model, op>;

struct world {
    std::unique_ptr<domain> d;
    std::deque<util::mixin_info_data> data;
    std::vector<std::unique_ptr<object>> keep;
    std::unique_ptr<object> s;
    const type *ab, *own[3];
    std::optional<object> x[3], y[3];
    model m;
    long blocks, alive;
    std::string msg[3]; // of failing requests
    list lof(const type& t) const { list r; for (auto p : t.mixins) for (int i = 0; i < 3; ++i) if (p == g_infos[i]) r.push_back(i); return r; }
    const type& ty(const list& l) { infos v; for (int i : l) v.push_back(g_infos[i]); return d->get_type(v); }
    template <typename M> void mixin(int i, const char* n) {
        data.emplace_back();
        util::mixin_info_data_builder<M> b(data.back(), n);
        g_infos[i] = &data.back().info;
        g_infos[i]->equals = [](const mixin_info*, const void* a, const void* b) noexcept { return *static_cast<const M*>(a) == *static_cast<const M*>(b); };
        g_infos[i]->compare = [](const mixin_info*, const void* a, const void* b) noexcept { auto &x = *static_cast<const M*>(a), &y = *static_cast<const M*>(b); return x < y ? -1 : y < x ? 1 : 0; };
        if (i < 2) {
            b.template implements_by<uni_msg>([](const M* m, int k) { m->check(); return m->v * 100 + k; }, priority(i));
            b.template implements_by<multi_msg>([](const M* m, int& a) { m->check(); a = a * 10 + std::is_same_v<M, MB> + 1; return int(std::is_same_v<M, MB>); }, priority(i));
        }
        d->register_mixin(data.back().info);
    }
    static util::builder_perks priority(int p) { return util::builder_perks{0, p}; }
    explicit world(const std::vector<list>& kept, bool with_own) : blocks(sched::mem_blocks()), alive(sched::counted()) {
        d = std::make_unique<domain>("d");
        mixin<MA>(0, "a"); mixin<MB>(1, "b"); mixin<MC>(2, "c");
        for (auto& l : kept) { keep.push_back(std::make_unique<object>(ty(l))); m.kept.insert(l); m.types.insert(l); }
        ab = &ty(AB); m.types.insert(AB);
        d->register_type_class(tc);
        for (int i = 0; i < 3; ++i) { infos v{g_infos[i], g_infos[i]}; msg[i] = message([&] { d->get_type(v); }); }
        s = std::make_unique<object>(*ab); m.s.exists = true; m.to(m.s, AB);
        s->get<MA>()->v = m.s.v[0] = 33;
        for (int t = 0; t < 3; ++t) if (with_own || t < 2) {
            own[t] = &ty(OWN[t]); m.types.insert(OWN[t]);
            x[t].emplace(*own[t]); m.x[t].exists = true; m.to(m.x[t], OWN[t]);
        }
    }
    ~world() {
        keep.clear(); s.reset(); for (auto& o : x) o.reset(); for (auto& o : y) o.reset();
        MC_EQ(sched::counted(), alive, "mixins alive at the end");
        for (auto& x : data) d->unregister_mixin(x.info);
        d->unregister_feature(const_cast<feature_info&>(static_cast<const feature_info&>(uni_msg::get_info_safe())));
        d->unregister_feature(const_cast<feature_info&>(static_cast<const feature_info&>(multi_msg::get_info_safe())));
        d.reset(); data.clear();
        MC_EQ(sched::mem_blocks(), blocks, "memory blocks not returned");
    }
    std::string show(const std::optional<object>& o) const {
        if (!o) return "-";
        auto l = lof(o->get_type()); std::string r = lstr(l);
        if (o->empty() != l.empty() || o->num_mixins() != l.size()) return "inconsistent object";
        for (int i : l) { auto p = o->get(*g_infos[i]); if (!p) return "no mixin"; static_cast<const base<0, true>*>(p); int v; memcpy(&v, p, sizeof v); r += std::to_string(v) + ","; if (object_of(static_cast<const void*>(p)) != &*o) return "object_of"; }
        return r;
    }
    std::string run(const op& o, int t) {
        auto &X = x[t], &Y = y[t];
        std::string r;
        switch (o.w) {
        case create: X.reset(); X.emplace(*ab); break;
        case create_own: X.reset(); X.emplace(*own[t]); break;
        case copy: if (X) { Y.reset(); Y.emplace(X->copy()); } break;
        case move_: if (X) { Y.reset(); Y.emplace(std::move(*X)); } break;
        case drop_x: X.reset(); break;
        case drop_y: Y.reset(); break;
        case add_c: if (X && !X->has<MC>()) mutate(*X, add<MC>()); break;
        case remove_a: if (X) mutate(*X, dynamix::remove<MA>()); break;
        case reset_ab: if (X) X->reset_type(*ab); break;
        case clear_x: if (X) X->clear(); break;
        case call: {
            if (!X) break;
            int acc = 0, u = 0, k = 0;
            r = outcome_of([&] { u = uni_msg::call(*X, 5); k = multi_msg::call(*X, acc); });
            if (r.empty()) r = "u" + std::to_string(u) + "m" + std::to_string(k) + "," + std::to_string(acc);
            break;
        }
        case set: if (X) if (auto a = X->get<MA>()) a->v = 60 + t; break;
        case copy_from_s: if (X) X->copy_from(*s); break;
        case cmp_s: if (X) { bool e = X->equals(*s); int c = X->compare(*s); r = e ? "equal" : "different"; if (e != (c == 0)) r = "compare differs from equals"; } break;
        case copy_s: Y.reset(); Y.emplace(s->copy()); break;
        case look: {
            if (!X) break;
            auto& ty = X->get_type();
            const object& CX = *X;
            for (int i = 0; i < 3; ++i) {
                auto k = ty.index_of(NAME[i]); bool has = k != invalid_mixin_index;
                r += has ? std::to_string(int(k)) : "-";
                if (ty.index_of(g_infos[i]->id) != k || ty.has(*g_infos[i]) != has || ty.has(NAME[i]) != has || X->has(NAME[i]) != has || (X->get(NAME[i]) != nullptr) != has || CX.get(NAME[i]) != CX.get(*g_infos[i]) || (has && X->get_at(k) != X->get(NAME[i]))) r += "!";
            }
            auto& u = uni_msg::get_info_safe(); auto& mu = multi_msg::get_info_safe();
            bool im = ty.implements_strong(u.name.to_std());
            if (ty.implements_strong(u) != im || ty.implements(mu) != im || ty.implements_strong(mu.name.to_std()) != im) r += "!";
            r += im ? "i" : "n";
            auto nx = ty.find_next_implementer(u, *g_infos[0]);
            r += nx ? "x" : "e"; if (nx && ty.mixins[nx->mixin_index] != g_infos[1]) r += "!";
            if (!ty.copyable() || !ty.copy_constructible() || !ty.equality_comparable() || !ty.comparable()) r += "!";
            r += ty.is_of("has c") ? "c" : "o"; if (ty.is_of(tc) != ty.is_of("has c") || d->get_type_class("has c") != &tc) r += "!";
            r += ty.compare(*ab) == 0 ? "=" : "#";
            break;
        }
        case fail_:
            r = "fails";
            for (int k = 0; k < 3; ++k) { infos v{g_infos[(t + k) % 3], g_infos[(t + k) % 3]}; if (message([&] { d->get_type(v); }) != msg[(t + k) % 3]) r += "!"; }
            break;
        case by_name: if (X) { if (X->has("b")) mutate(*X, dynamix::remove("b")); mutate(*X, add("b")); if (!X->has("c")) mutate(*X, add("c")); } break;
        case gc: d->garbage_collect_types(); return "ok";
        case req: ab->num_objects(); return "";
        }
        return r + " x=" + show(X) + " y=" + show(Y);
    }
    std::string state(std::set<list>* unused = nullptr) const {
        std::map<list, size_t> n;
        domain_traverse tr(*d);
        tr.traverse_types([&](const type& t) { n[lof(t)] = t.num_objects(); if (unused && !t.num_objects()) unused->insert(lof(t)); });
        std::string r; for (auto& x : n) r += lstr(x.first) + "*" + std::to_string(x.second) + " ";
        return r;
    }
    void concurrent(const std::vector<std::vector<int>>& prog) {
        hist h(int(prog.size()));
        for (size_t t = 0; t < prog.size(); ++t) for (int w : prog[t]) { h.ops[t].push_back({int(t), {w}, {}, 0, 0}); MC_LOG("thread " << t << ": " << wname(w)); }
        MC_EQ(state(), m.state(), "before");
        sched::run(int(prog.size()), [&](int t) {
            for (auto& i : h.ops[size_t(t)]) { mc::step_(); i.begin = sched::tick(); i.result = run(i.op, t); i.end = sched::tick(); }
        });
        if (mc::pruned()) return;
        bool collected = prog.back().front() == gc;
        std::set<list> unused;
        auto st = state(&unused);
        MC_LOG("history" << h.str() << " => " << st);
        if (!h.linearizable(m, [](model& m, const op& o, int t) { return m.run(o, t); }, [&](const model& m) { return m.state(collected ? &unused : nullptr); }, st))
            mc::fail("no order of the operations explains what was observed: " + m.state() + h.str() + " => " + st);
        // now nothing is in progress
        d->garbage_collect_types();
        domain_traverse(*d).traverse_types([&](const type& t) { if (!t.num_objects()) mc::fail("a type without objects remains"); });
        std::string oc; for (auto& t : h.ops) for (auto& i : t) oc += i.op.str() + i.result + ";"; mc::outcome(oc + st);
    }
};
const std::vector<int> ALL{create, create_own, copy, move_, drop_x, drop_y, add_c, remove_a, reset_ab, clear_x, call, set, copy_from_s, cmp_s, copy_s, req};
const std::vector<int> ALL_AND{look, fail_, by_name, create, create_own, copy, move_, drop_x, add_c, remove_a, reset_ab, clear_x, call, set, copy_from_s, cmp_s, copy_s, req};
const std::vector<int> KEPT{create, copy, move_, drop_x, drop_y, reset_ab, clear_x, call, copy_from_s, copy_s, cmp_s};
std::vector<std::vector<int>> programs(const std::vector<int>& al, int threads, int len) {
    std::vector<std::vector<int>> r;
    for (int t = 0; t < threads; ++t) { r.emplace_back(); for (int i = 0; i < len; ++i) r.back().push_back(al[size_t(mc::choose(int(al.size())))]); }
    return r;
}
// queries and failures by all threads with any operation of another
void query_body(int threads) {
    std::vector<std::vector<int>> p;
    for (int t = 0; t < threads; ++t) p.push_back({t && t == threads - 1 ? ALL_AND[size_t(mc::choose(int(ALL_AND.size())))] : look + mc::choose(3)});
    sched::preemption_bound = -1;
    world w({}, threads == 3);
    w.concurrent(p);
}
// no collections: any operations
void free_body(int threads, int len) {
    auto p = programs(ALL, threads, len);
    sched::preemption_bound = -1;
    world w({}, threads == 3);
    w.concurrent(p);
}
// the last thread collects; the others only enter types which have other objects
void gc_body(int threads, int len, int gcs) {
    auto p = programs(KEPT, threads, len);
    p.push_back(std::vector<int>(size_t(gcs), gc));
    if (gcs > 1) p.back() = {gc, req, gc};
    sched::preemption_bound = -1;
    world w({}, threads == 3);
    w.concurrent(p);
}
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
    sched::setup();
    mc::section("objects/2x2/all-schedules", [] { free_body(2, 2); });
    mc::section("collection/2x2+1/all-schedules", [] { gc_body(2, 2, 1); });
    mc::section("collection/1x3+2/all-schedules", [] { gc_body(1, 3, 2); });
    mc::section("queries/2x1/all-schedules", [] { query_body(2); });
    mc::section("queries/3x1/all-schedules", [] { query_body(3); });
    if (mc::thorough) {
        mc::section("objects/3x1/all-schedules", [] { free_body(3, 1); });
        mc::section("collection/1x4+2/all-schedules", [] { gc_body(1, 4, 2); });
    }
    });
}
