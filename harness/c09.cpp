// Histories of two objects: exactly the mixins of the type, values kept, constructed and destroyed once.
#include "world.hpp"
#include "wide.hpp"

namespace {
void run(bool dedup, int depth, int nobj, bool canonical = false, bool no_destroy = false) {
    world w(nobj, canonical, no_destroy);
    std::vector<list> L = {{}, {0}, {1}, {0, 1}, {1, 0}, {2, 0}, {3, 1}, {0, 1, 3}, {3, 2, 0}, {0, 1, 2, 3}};
    if (canonical) L = {{}, {0}, {1}, {0, 1}, {0, 2}, {1, 3}, {0, 1, 3}, {0, 2, 3}, {0, 1, 2, 3}};
    enum { op_type, op_edit, op_gradual, op_mutate_to, op_copy, op_copy_from, op_move, op_copy_match, op_move_match, op_clear, op_destroy, op_empty, op_count };
    for (int i = 0; i < depth; ++i) {
        int op = mc::choose(op_count);
        int s = mc::choose(nobj);
        auto &x = w.o[size_t(s)]; auto& mx = w.m[size_t(s)];
        int t = 0;
        if (op >= op_copy && op <= op_move_match) t = mc::choose(nobj);
        int li = op == op_type || op == op_mutate_to ? mc::choose(int(L.size())) : 0;
        int e = op == op_edit || op == op_gradual ? mc::choose(int(w.ps.size()) * 2 + 2) : 0;
        if (mc::pruned()) return;
        auto &y = w.o[size_t(t)]; auto& my = w.m[size_t(t)];
        switch (op) {
        case op_type:
            MC_STEP("object " << s << (x ? " reset to " : " created of ") << show(L[size_t(li)]));
            if (x) x->reset_type(w.ty(L[size_t(li)])); else x = std::make_unique<object>(w.ty(L[size_t(li)]), allocator(&w.ores));
            w.to(mx, L[size_t(li)]);
            break;
        case op_mutate_to: {
            if (!x) return;
            // with an overriding initialization of b and d
            MC_STEP("object " << s << " mutate_to " << show(L[size_t(li)]) << " with b=7 d=8");
            bool hb = has(mx.l, 1), hd = has(mx.l, 3);
            auto f = [](int v) { return [v](init_new_args a) { T().born(a.info, a.mixin_buf, v); }; };
            mutate_to(*x, w.ty(L[size_t(li)]), construct(w.mi(3), f(8)), construct(w.mi(1).name.to_std(), f(7)));
            auto l = L[size_t(li)];
            if (!hb && has(l, 1)) mx.v[1] = 7;
            if (!hd && has(l, 3)) mx.v[3] = 8;
            w.to(mx, l);
            break;
        }
        case op_edit: case op_gradual: {
            if (!x) return;
            list l = mx.l;
            int k = e / 2; bool add = e & 1;
            auto tob = [](list& q, int z) { q.erase(std::find(q.begin(), q.end(), z)); q.push_back(z); };
            if (k == int(w.ps.size())) {
                // a combination: remove a, add c, b to the back
                if (!has(l, 1) || has(l, 2)) return;
                MC_STEP("object " << s << (op == op_edit ? " mutate: " : " gradual: ") << "remove a, add c, b to back");
                if (op == op_edit) { if (add) mutate(*x, dynamix::remove(w.mi(0)), dynamix::add(w.mi(2)), to_back(w.mi(1))); else mutate(*x, dynamix::remove("a"), dynamix::add("c"), to_back("b")); }
                else { if (add) mutate(*x).remove(w.mi(0)).add(w.mi(2)).to_back(w.mi(1)); else { auto g = mutate(*x); g.remove("a").add("c").to_back("b"); g.apply(); } }
                if (has(l, 0)) l.erase(std::find(l.begin(), l.end(), 0));
                l.push_back(2); tob(l, 1);
            }
            else if (add) {
                if (has(l, k)) return;
                MC_STEP("object " << s << (op == op_edit ? " mutate: " : " gradual: ") << "add " << char('a' + k));
                if (op == op_edit) mutate(*x, dynamix::add(w.mi(k))); else mutate(*x).add_if_lacking(w.mi(k)).add_if_lacking(w.mi(k).name.to_std());
                l.push_back(k);
            }
            else {
                MC_STEP("object " << s << (op == op_edit ? " mutate: " : " gradual: ") << "remove " << char('a' + k));
                if (op == op_edit) mutate(*x, dynamix::remove(w.mi(k))); else mutate(*x).remove(w.mi(k).name.to_std());
                auto f = std::find(l.begin(), l.end(), k); if (f != l.end()) l.erase(f);
            }
            if (canonical) std::sort(l.begin(), l.end());
            w.to(mx, l);
            break;
        }
        case op_copy:
            if (!x || s == t) return;
            MC_STEP("object " << t << " replaced by a copy of " << s);
            y = std::make_unique<object>(x->copy(allocator(&w.ores))); my = mx;
            break;
        case op_copy_from:
            if (!x || !y) return;
            MC_STEP("object " << t << " copy_from " << s);
            y->copy_from(*x); my = mx;
            break;
        case op_move:
            if (!x) return;
            MC_STEP("object " << s << " moved to " << t);
            if (y) *y = std::move(*x); else y = std::make_unique<object>(std::move(*x));
            if (s != t) { my = mx; mx.l.clear(); mx.v.clear(); }
            break;
        case op_copy_match: case op_move_match:
            if (!x || !y || (s == t && op == op_move_match)) return;
            MC_STEP((op == op_copy_match ? "copy" : "move") << " matching from " << s << " to " << t);
            if (op == op_copy_match) y->copy_matching_from(*x); else y->move_matching_from(*x);
            for (int k : my.l) if (has(mx.l, k)) { my.v[k] = mx.v[k]; if (op == op_move_match) mx.v[k] = -1; }
            break;
        case op_clear:
            if (!x) return;
            MC_STEP("clear " << s); if (i & 1) x->clear(); else x->reset_type();
            mx.l.clear(); mx.v.clear();
            break;
        case op_destroy:
            if (!x) return;
            MC_STEP("destroy " << s); x.reset(); mx = {};
            break;
        case op_empty:
            if (x) return;
            MC_STEP("create empty " << s); x = std::make_unique<object>(*w.d, allocator(&w.ores)); mx.exists = true;
            break;
        }
        w.check();
        auto k = w.key();
        mc::outcome(k);
        if (dedup && !mc::visit(k, depth - 1 - i)) return;
    }
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("one-object/all-sequences", [] { run(false, pick(3, 5), 1); });
        mc::section("one-object/all-states", [] { run(true, pick(6, 10), 1); });
        mc::section("two-objects/all-sequences", [] { run(false, pick(3, 4), 2); });
        mc::section("two-objects/all-states", [] { run(true, pick(5, 8), 2); });
        mc::section("three-objects/all-states", [] { run(true, pick(3, 6), 3); });
        mc::section("many-mixins/all-operations", [] { wide::object_histories(pick(257, 1025)); });
        mc::section("no-destroy/all-states", [] { run(true, pick(4, 7), 2, false, true); });
        mc::section("canonical/all-states", [] { run(true, pick(5, 7), 2, true); });
    });
}
