// Histories with sealed objects: their types never change, through any interface.
#include "world.hpp"
#include <dynamix/object_mutation.hpp>
#include <dnmx/mutate.h>

namespace {
const std::vector<list> L = {{}, {0}, {1, 0}, {2, 3}};

void run(bool dedup, int depth, int nobj, int start) {
    world w(nobj);
    std::vector<bool> sealed(size_t(nobj), false);
    auto sync = [&](int k) { if (w.o[size_t(k)]) sealed[size_t(k)] = w.o[size_t(k)]->sealed(); }; // where it's up to the library
    auto make = [&](int k, const list& l, bool seal) {
        w.next = T().next_val;
        w.o[size_t(k)] = std::make_unique<object>(w.ty(l), allocator(&w.ores), seal);
        w.m[size_t(k)] = {}; w.to(w.m[size_t(k)], l); sealed[size_t(k)] = seal;
    };
    if (start) for (int k = 0; k < nobj; ++k) make(k, L[size_t(k + 1) % L.size()], start & (1 << k));
    enum { o_create, o_seal, o_seal_c, o_reset, o_reset_c, o_mutate, o_mutate_c, o_gradual, o_mutate_to, o_mutate_to_plain, o_mutate_to_c, o_stepwise, o_clear, o_clear_c, o_copy_from, o_copy_from_c, o_copy, o_copy_c, o_move_asgn, o_move_ctor, o_usurp_c, o_match, o_match_move, o_set, o_destroy, o_count };
    static const char* names_[] = {"create", "seal", "seal (C)", "reset_type", "reset_type (C)", "mutate", "mutate (C)", "gradual mutation", "mutate_to with ops", "mutate_to", "mutate_to (C)", "stepwise mutation", "clear", "clear (C)", "copy_from", "copy_from (C)", "copy", "copy (C)", "move assignment", "move construction", "usurp (C)", "copy matching", "move matching", "set values", "destroy"};
    for (int i = 0; i < depth; ++i) {
        int k = mc::choose(o_count), s = mc::choose(nobj);
        bool two = k >= o_copy_from && k <= o_match_move;
        int t = two && nobj > 1 ? mc::choose(nobj) : s;
        bool uses_list = k == o_create || (k >= o_reset && k <= o_stepwise);
        int li = uses_list ? mc::choose(int(L.size())) : 0;
        bool seal = k == o_create && mc::flip();
        if (mc::pruned()) return;
        auto& l = L[size_t(li)];
        // the target is s
        auto &x = w.o[size_t(s)], &y = w.o[size_t(t)]; auto &mx = w.m[size_t(s)], &my = w.m[size_t(t)];
        if (k == o_create || k == o_copy || k == o_copy_c || k == o_move_ctor || k == o_usurp_c) { if (x) return; } else if (!x) return;
        if (two && !y) return;
        if (k == o_match_move && s == t) return;
        w.next = T().next_val;
        bool was = sealed[size_t(s)];
        // everything of the target
        std::vector<const void*> addr; if (x) for (int q : mx.l) addr.push_back(x->get(w.mi(q)));
        auto unsealed_to = [&](const list& q) { w.to(mx, q); };
        std::string out; bool changes = false; // would it change the type or drop the mixins
        auto f = [](init_new_args a) { T().born(a.info, a.mixin_buf, 7); };
        std::vector<dnmx_mutate_op> cops;
        if (k == o_mutate_c) {
            for (int q : mx.l) cops.push_back({dnmx_mutate_op_remove, &w.mi(q), {}, nullptr, 0});
            for (int q : l) cops.push_back({dnmx_mutate_op_add, nullptr, w.mi(q).name, nullptr, 0});
        }
        dnmx_mutate_to_override over{&w.mi(0), {}, [](dnmx_mutate_func_args a) -> dnmx_error_return_t { T().born(*a.info, a.mixin_buf, 7); return 0; }, nullptr, 0};
        if (uses_list && k != o_create) changes = mx.l != l;
        switch (k) {
        case o_create: make(s, l, seal); break;
        case o_seal: x->seal(); sealed[size_t(s)] = true; break;
        case o_seal_c: dnmx_object_seal(x->to_c_hanlde()); sealed[size_t(s)] = true; break;
        case o_reset: out = outcome_of([&] { x->reset_type(w.ty(l)); }); break;
        case o_reset_c: if (dnmx_object_reset_type(x->to_c_hanlde(), &w.ty(l))) out = "object_error"; break;
        case o_mutate: {
            // remove all and add those of the list
            struct all { world& w; const list& a; const list& b; void apply_to_type_mutation(type_mutation& m) { for (int q : a) m.remove(w.mi(q)); for (int q : b) m.add(w.mi(q)); } object_mutate_op* to_obj_mutate(const object&) { return nullptr; } };
            auto from = mx.l;
            out = outcome_of([&] { mutate(*x, all{w, from, l}); });
            break;
        }
        case o_mutate_c: if (dnmx_mutate(x->to_c_hanlde(), cops.data(), uint32_t(cops.size()))) out = "object_error"; break;
        case o_gradual: out = outcome_of([&] { auto g = mutate(*x); for (int q : mx.l) g.remove(w.mi(q)); for (int q : l) g.add(w.mi(q)); }); break;
        case o_mutate_to: out = outcome_of([&] { mutate_to(*x, w.ty(l), construct("a", f)); }); break;
        case o_mutate_to_plain: out = outcome_of([&] { mutate_to(*x, w.ty(l)); }); break;
        case o_mutate_to_c: if (dnmx_mutate_to(x->to_c_hanlde(), &w.ty(l), &over, 1)) out = "object_error"; break;
        case o_stepwise: out = outcome_of([&] { object_mutation m(*x, w.ty(l)); m.default_construct_each_new_mixin(); m.finalize(); }); break;
        case o_clear: changes = !mx.l.empty(); out = outcome_of([&] { x->clear(); }); break;
        case o_clear_c: changes = !mx.l.empty(); if (!dnmx_object_clear(x->to_c_hanlde())) out = "object_error"; break;
        case o_copy_from: changes = mx.l != my.l; out = outcome_of([&] { x->copy_from(*y); }); break;
        case o_copy_from_c: changes = mx.l != my.l; if (dnmx_object_copy_from(x->to_c_hanlde(), y->to_c_hanlde())) out = "object_error"; break;
        case o_copy: x = std::make_unique<object>(y->copy(allocator(&w.ores))); mx = my; sealed[size_t(s)] = false; break;
        case o_copy_c: {
            // (with the default allocator: looked at and destroyed)
            auto h = dnmx_create_object_copy(y->to_c_hanlde());
            MC_CHECK(h && dnmx_object_get_type(h) == &y->get_type() && !dnmx_object_is_sealed(h), "copy in C");
            dnmx_destroy_object(h);
            break;
        }
        case o_move_asgn: changes = s != t && (!mx.l.empty() || !my.l.empty()); out = outcome_of([&] { *x = std::move(*y); }); break;
        case o_move_ctor: x = std::make_unique<object>(std::move(*y)); mx = my; my.l.clear(); my.v.clear(); sealed[size_t(s)] = sealed[size_t(t)]; sync(t); break;
        case o_usurp_c: {
            bool ys = sealed[size_t(t)];
            auto h = dnmx_create_object_usurp(y->to_c_hanlde());
            MC_CHECK(h && dnmx_object_is_sealed(h) == ys && y->empty(), "usurp in C");
            dnmx_destroy_object(h);
            my.l.clear(); my.v.clear(); sync(t);
            break;
        }
        case o_match: case o_match_move:
            if (k == o_match) x->copy_matching_from(*y); else x->move_matching_from(*y);
            for (int q : mx.l) if (has(my.l, q)) { mx.v[q] = my.v[q]; if (k == o_match_move) my.v[q] = -1; }
            break;
        case o_set: for (int q : mx.l) { T().set(x->get(w.mi(q)), 900 + q); mx.v[q] = 900 + q; } break;
        case o_destroy: x.reset(); mx = {}; sealed[size_t(s)] = false; break;
        }
        MC_STEP(names_[k] << (was ? " of sealed object " : " of object ") << s << (uses_list ? " " + show(l) : std::string()) << (two ? MC_STR(" from " << t) : std::string()) << " -> " << (out.empty() ? "done" : out));
        bool mutates = (uses_list && k != o_create) || k == o_clear || k == o_clear_c || k == o_copy_from || k == o_copy_from_c || k == o_move_asgn;
        if (mutates) {
            if (was && changes) MC_EQ(out, std::string("object_error"), "the operation on a sealed object");
            if (!was) MC_EQ(out, std::string(), "the operation on an object which isn't sealed");
            if (out.empty()) {
                if (k == o_clear || k == o_clear_c) { mx.l.clear(); mx.v.clear(); }
                else if (k == o_copy_from || k == o_copy_from_c) { mx = my; }
                else if (k == o_move_asgn) { if (s != t) { mx = my; my.l.clear(); my.v.clear(); sealed[size_t(s)] = sealed[size_t(t)]; sync(t); } }
                else {
                    if ((k == o_mutate_to || k == o_mutate_to_c) && has(l, 0) && !has(mx.l, 0)) mx.v[0] = 7;
                    unsealed_to(l);
                }
            }
            else {
                MC_EQ(out, std::string("object_error"), "kind of error");
                for (size_t q = 0; q < mx.l.size(); ++q) MC_CHECK(x->get(w.mi(mx.l[q])) == addr[q], "a refused operation moved mixins");
            }
        }
        w.next = T().next_val;
        w.check();
        for (int q = 0; q < nobj; ++q) if (w.o[size_t(q)]) {
            MC_EQ(w.o[size_t(q)]->sealed(), sealed[size_t(q)], "sealed state of object " << q);
            MC_EQ(dnmx_object_is_sealed(w.o[size_t(q)]->to_c_hanlde()), sealed[size_t(q)], "sealed state in C of object " << q);
        }
        auto key = w.key(); for (bool b : sealed) key += b ? 's' : '-';
        mc::outcome(key);
        if (dedup && !mc::visit(key, depth - 1 - i)) return;
    }
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("one-object/all-sequences", [] { run(false, pick(3, 4), 1, 0); });
        mc::section("one-object/all-states", [] { run(true, pick(5, 9), 1, 0); });
        mc::section("two-objects/all-states", [] { run(true, pick(5, 8), 2, 0); });
        mc::section("two-objects/sealed-first", [] { run(true, pick(4, 7), 2, 1); });
        mc::section("two-objects/both-sealed", [] { run(true, pick(4, 7), 2, 3); });
        mc::section("two-objects/all-sequences", [] { run(false, pick(2, 3), 2, 1); });
    });
}
