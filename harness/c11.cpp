// Operations and mutations in all nestings of scopes which are left by exceptions.
#include "world.hpp"
#include <dynamix/object_mutation.hpp>

namespace {
struct planned {};
bool g_few; // restricted alphabet, for longer programs
const std::vector<list>& L() {
    static const std::vector<list> few = {{}, {0}, {2, 0}}, all = {{}, {0}, {1, 0}, {2, 0, 3}};
    return g_few ? few : all;
}

struct run {
    world w{2};
    int budget;
    int busy = 0;        // mutations in progress
    bool taken[2] = {};  // objects with mutations in progress
    int nest = 0, max_nest;
    bool dead = false;   // pruned
    std::string trace;
    run(int b, int n) : budget(b), max_nest(n) {}

    void check() { if (!busy) w.check(); }
    int choose(int n) { int r = mc::choose(n); if (mc::pruned()) dead = true; return r; }
    std::string in() { return std::string(size_t(nest) * 2, ' ') + (std::uncaught_exceptions() ? MC_STR("(unwinding " << std::uncaught_exceptions() << ") ") : std::string()); }

    // plain operation of object s
    void op(int s) {
        enum { o_type, o_edit, o_gradual, o_to, o_copy, o_copy_from, o_move, o_clear, o_destroy, o_count };
        auto& x = w.o[size_t(s)]; auto& mx = w.m[size_t(s)];
        auto& y = w.o[size_t(1 - s)]; auto& my = w.m[size_t(1 - s)];
        static const int few[] = {o_type, o_gradual, o_copy, o_clear};
        int k = g_few ? few[choose(4)] : choose(o_count);
        int li = k == o_type || k == o_to ? choose(int(L().size())) : 0;
        if (dead) return;
        auto& l = L()[size_t(li)];
        w.next = T().next_val;
        bool other = y && !taken[1 - s];
        switch (k) {
        case o_type:
            MC_STEP(in() << "object " << s << (x ? " reset to " : " created of ") << show(l));
            if (x) x->reset_type(w.ty(l)); else x = std::make_unique<object>(w.ty(l), allocator(&w.ores));
            w.to(mx, l);
            break;
        case o_edit: case o_gradual: {
            if (!x) return;
            list q = mx.l;
            MC_STEP(in() << "object " << s << (k == o_edit ? " mutate" : " gradual mutation") << ": toggle c");
            if (has(q, 2)) {
                if (k == o_edit) mutate(*x, dynamix::remove("c")); else mutate(*x).remove(w.mi(2));
                q.erase(std::find(q.begin(), q.end(), 2));
            }
            else {
                if (k == o_edit) mutate(*x, dynamix::add(w.mi(2))); else mutate(*x).add("c");
                q.push_back(2);
            }
            w.to(mx, q);
            break;
        }
        case o_to: {
            if (!x) return;
            MC_STEP(in() << "object " << s << " mutate_to " << show(l) << " with a=7");
            bool h = has(mx.l, 0);
            mutate_to(*x, w.ty(l), construct(w.mi(0), [](init_new_args a) { T().born(a.info, a.mixin_buf, 7); }));
            if (!h && has(l, 0)) mx.v[0] = 7;
            w.to(mx, l);
            break;
        }
        case o_copy:
            if (!other) return;
            MC_STEP(in() << "object " << s << " replaced by a copy of the other");
            x = std::make_unique<object>(y->copy(allocator(&w.ores))); mx = my;
            break;
        case o_copy_from:
            if (!other || !x) return;
            MC_STEP(in() << "object " << s << " copied from the other");
            x->copy_from(*y); mx = my;
            break;
        case o_move:
            if (!other) return;
            MC_STEP(in() << "object " << s << " moved from the other");
            if (x) *x = std::move(*y); else x = std::make_unique<object>(std::move(*y));
            mx = my; my.l.clear(); my.v.clear();
            break;
        case o_clear:
            if (!x) return;
            MC_STEP(in() << "object " << s << " cleared");
            x->clear(); mx.l.clear(); mx.v.clear();
            break;
        case o_destroy:
            if (!x) return;
            MC_STEP(in() << "object " << s << " destroyed");
            x.reset(); mx = {};
            break;
        }
        check();
    }

    // mutation of object s, with a block of others while it's in progress
    void mutation(int s) {
        enum { m_normal, m_throw, m_init_throws, m_rollback, m_rollback_throw, m_finalize, m_finalize_throw, m_gradual_normal, m_gradual_throw, m_gradual_cancel, m_count };
        static const char* names[] = {"completes", "is abandoned", "has a failing initialization", "is rolled back", "is rolled back and abandoned", "is finalized", "is finalized and abandoned", "(gradual) is applied", "(gradual) is abandoned", "(gradual) is cancelled and abandoned"};
        auto& x = w.o[size_t(s)]; auto& mx = w.m[size_t(s)];
        if (!x) return;
        static const int few[] = {m_normal, m_throw, m_init_throws, m_finalize_throw};
        int k = g_few ? few[choose(4)] : choose(m_count);
        auto& l = L()[size_t(choose(int(L().size())))];
        bool gradual = k >= m_gradual_normal;
        int steps = k == m_finalize || k == m_finalize_throw ? int(l.size()) : gradual ? 0 : choose(int(l.size()) + 1);
        if (dead) return;
        bool same = mx.l == l;
        if (same && (k == m_rollback || k == m_rollback_throw) && steps) return;
        auto old = mx;
        bool effect = k == m_normal || k == m_finalize || k == m_finalize_throw || k == m_gradual_normal;
        bool fail_possible = false;
        auto& t = w.ty(l);
        MC_STEP(in() << "mutation of object " << s << " to " << show(l) << " starts, " << steps << " steps, " << names[k]);
        ++busy; taken[s] = true; ++nest;
        bool threw = false;
        int first_new = 0;
        try {
            if (gradual) {
                auto g = mutate(*x);
                for (int i : old.l) g.remove(w.mi(i));
                for (int i : l) g.add(w.mi(i));
                block();
                if (k == m_gradual_throw) throw planned{};
                if (k == m_gradual_cancel) { g.cancel(); throw planned{}; }
            }
            else {
                object_mutation m(*x, t);
                for (int i = 0; i < steps; ++i) m.update_next_mixin([&](init_new_args a) {
                    if (k == m_init_throws && i + 1 == steps) throw planned{};
                    T().born(a.info, a.mixin_buf, 50 + i);
                }, [](update_common_args) {});
                block();
                if (k == m_throw) throw planned{};
                if (k == m_init_throws && steps < int(l.size())) { T().fault = [](fn f, const probe&) { return f == f_init ? 2 : 0; }; }
                if (k == m_rollback || k == m_rollback_throw) m.rollback();
                if (k == m_finalize || k == m_finalize_throw) m.finalize();
                if (k == m_rollback_throw || k == m_finalize_throw) throw planned{};
            }
        }
        catch (planned&) { threw = true; }
        catch (std::runtime_error&) { threw = true; }
        T().fault = nullptr;
        --busy; taken[s] = false; --nest;
        (void)fail_possible; (void)first_new;
        if (dead) return;
        bool has_new = false; for (int i : l) if (!has(old.l, i)) has_new = true;
        if (k == m_init_throws) {
            // fails only if there is something to be initialized where it was to fail
            bool expect = false;
            if (!same) {
                for (int i = 0; i < int(l.size()); ++i) if (!has(old.l, l[size_t(i)])) {
                    if (i + 1 == steps) expect = true;
                    if (i >= steps) expect = true;
                }
            }
            effect = !expect;
            MC_EQ(threw, expect, "failure of an initialization of a new mixin");
        }
        else MC_EQ(threw, k == m_throw || k == m_rollback_throw || k == m_finalize_throw || k == m_gradual_throw || k == m_gradual_cancel, "exceptions");
        if (effect) {
            if (!gradual) for (int i = 0; i < steps; ++i) { int c = l[size_t(i)]; if (!has(old.l, c)) mx.v[c] = 50 + i; }
            // default initialized ones, whatever was initialized meanwhile by others
            for (int i : l) if (!mx.v.count(i)) { int v = probe::alive(&w.mi(i), x->get(w.mi(i)), "mutation").val; MC_CHECK(v >= 100, "default initialization"); mx.v[i] = v; }
            w.to(mx, l);
        }
        (void)has_new;
        if (!busy) { w.next = T().next_val; w.check(); }
        MC_LOG(in() << "... object " << s << " is " << show(mx.l));
    }

    // scope which is left by an exception; its destructors do things
    void unwinding() {
        MC_STEP(in() << "scope");
        ++nest;
        try {
            struct guard { run& r; ~guard() noexcept(false) { r.block(); } } g{*this};
            if (choose(2)) { block(); if (dead) return; MC_LOG(in() << "throw"); }
            throw planned{};
        }
        catch (planned&) {}
        --nest;
        if (!dead) check();
    }

    void block() {
        while (budget > 0 && !dead) {
            int s;
            switch (int k = choose(nest < max_nest ? 6 : 5)) {
            case 0: return;
            case 1: case 2: s = k - 1; if (dead || taken[s]) return; --budget; op(s); break;
            case 3: case 4: s = k - 3; if (dead || taken[s]) return; --budget; mutation(s); break;
            case 5: if (dead) return; --budget; unwinding(); break;
            }
        }
    }
};

void explore(int budget, int nest, int start, bool few) {
    g_few = few;
    run r(budget, nest);
    if (start >= 1) { r.w.o[0] = std::make_unique<object>(r.w.ty({0, 1}), allocator(&r.w.ores)); r.w.to(r.w.m[0], {0, 1}); }
    if (start >= 2) { r.w.o[1] = std::make_unique<object>(r.w.ty({2, 0}), allocator(&r.w.ores)); r.w.to(r.w.m[1], {2, 0}); }
    r.block();
    if (r.dead) return;
    r.check();
    mc::outcome(r.w.key());
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("no-objects/all-programs", [] { explore(pick(2, 3), 3, 0, false); });
        mc::section("one-object/all-programs", [] { explore(pick(2, 3), 3, 1, false); });
        mc::section("two-objects/all-programs", [] { explore(pick(2, 3), 3, 2, false); });
        mc::section("one-object/longer-programs", [] { explore(pick(3, 4), 3, 1, true); });
        if (mc::thorough) mc::section("two-objects/longer-programs", [] { explore(3, 3, 2, true); });
    });
}
