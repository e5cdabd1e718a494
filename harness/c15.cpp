// Histories with several allocators: every block is where it should be, and goes back where it came from.
#include "kit.hpp"
#include "wide.hpp"
#include <dynamix/mutate.hpp>
#include <dynamix/object_mutation.hpp>
#include <dnmx/mixin_allocator.h>
#include <dnmx/object.h>
#include <algorithm>
using namespace kit;

namespace {
using list = std::vector<int>;
std::string show(const list& l) { std::string s; for (int i : l) s += char('a' + i); return "[" + s + "]"; }
bool has(const list& l, int m) { return std::find(l.begin(), l.end(), m) != l.end(); }

// allocator through the C interface
res* g_cres;
void* c_alloc(const dnmx_mixin_info* i) { if (i->name.to_std() == "e" && g_cres->name == "none") return nullptr; return g_cres->allocate(i->obj_buf_size, i->obj_buf_alignment_and_mixin_offset); }
void c_dealloc(void* p, const dnmx_mixin_info* i) { g_cres->deallocate(p, i->obj_buf_size, i->obj_buf_alignment_and_mixin_offset); }

struct mobj { bool exists = false; list l; int al = 0; std::map<int, const void*> addr; std::map<int, int> v; };
enum { NM = 6 };
struct world {
    world_guard wg;
    res dres{"domain"}, r[2] = {res{"zero"}, res{"one"}}, cres{"C mixin allocator"};
    mixalloc ma{"mixin allocator"}, mb{"other mixin allocator"};
    dnmx_mixin_allocator_handle ca;
    std::deque<probe> ps;
    std::unique_ptr<domain> d;
    std::unique_ptr<object> o[2]; mobj m[2];
    world() {
        g_cres = &cres;
        ca = dnmx_create_mixin_allocator(c_alloc, c_dealloc);
        d = std::make_unique<domain>("d", domain_settings{}, 0, nullptr, allocator(&dres));
        ps.emplace_back("a", 5, 1);              // internal
        ps.emplace_back("b", 40, 64).external(); // by the object's allocator
        ps.emplace_back("c", 3, 2).uses(ma);
        ps.emplace_back("d", 24, 8).no_move().uses(mb);
        ps.emplace_back("e", 17, 16).info.allocator = ca;
        ps.emplace_back("f", 16, 16);            // internal
        for (auto& p : ps) d->register_mixin(p.info);
    }
    ~world() {
        o[0].reset(); o[1].reset(); d.reset();
        dnmx_destroy_mixin_allocator(ca);
        for (auto x : {&dres, &r[0], &r[1], &cres, &ma.r, &mb.r}) x->check_empty("end");
    }
    const mixin_info& mi(int i) { return ps[size_t(i)].info; }
    const type& ty(const list& l) { infos v; for (int i : l) v.push_back(&mi(i)); return d->get_type(v); }
    bool ext(int i) { return i >= 1 && i <= 4; }
    res& alloc(int a) { return a == 2 ? def_res() : r[a]; }
    res& of(int i, int al) { return i == 2 ? ma.r : i == 3 ? mb.r : i == 4 ? cres : alloc(al); }
    void check() {
        size_t expect = 0; std::map<res*, size_t> blocks; std::set<const void*> seen;
        size_t live = 0;
        for (int k = 0; k < 2; ++k) {
            MC_EQ(bool(o[k]), m[k].exists, "object exists");
            if (!o[k]) continue;
            auto& x = *o[k]; auto& q = m[k];
            infos v; for (int i : q.l) v.push_back(&mi(i));
            MC_CHECK(type_mixins(x.get_type()) == v, "type of object " << k << " is " << names(type_mixins(x.get_type())));
            MC_CHECK(x.get_allocator() == allocator(&alloc(q.al)) || (q.al == 2 && !DYNAMIX_HAS_PMR), "allocator of object " << k);
            if (!q.l.empty() && (q.al != 2 || DYNAMIX_HAS_PMR)) {
                auto buf = reinterpret_cast<const char*>(x.to_c_hanlde()->m_mixin_data);
                MC_CHECK(alloc(q.al).owns(buf), "buffer of object " << k << " isn't from its allocator");
                MC_EQ(alloc(q.al).live[const_cast<char*>(buf)].size, size_t(x.get_type().object_buffer_size), "size of buffer");
                MC_EQ(alloc(q.al).live[const_cast<char*>(buf)].align, size_t(x.get_type().object_buffer_alignment), "alignment of buffer");
                ++blocks[&alloc(q.al)];
            }
            for (int i : q.l) {
                ++live;
                auto p = static_cast<const char*>(x.get(mi(i)));
                int val = probe::alive(&mi(i), p, "check").val;
                if (q.v.count(i)) MC_EQ(val, q.v[i], "value of " << char('a' + i)); else q.v[i] = val;
                if (!ext(i)) continue;
                if (q.addr.count(i)) MC_CHECK(q.addr[i] == p, "address of external mixin " << char('a' + i) << " of object " << k << " has changed"); else q.addr[i] = p;
                MC_CHECK(seen.insert(p).second, "shared external mixin");
                if (i == 1 && q.al == 2 && !DYNAMIX_HAS_PMR) continue;
                auto b = p - mi(i).obj_buf_alignment_and_mixin_offset;
                MC_CHECK(of(i, q.al).owns(b), "external mixin " << char('a' + i) << " of object " << k << " isn't from " << of(i, q.al).name);
                MC_EQ(of(i, q.al).live[const_cast<char*>(b)].size, size_t(mi(i).obj_buf_size), "size");
                MC_EQ(of(i, q.al).live[const_cast<char*>(b)].align, size_t(mi(i).obj_buf_alignment_and_mixin_offset), "alignment");
                ++blocks[&of(i, q.al)];
            }
        }
        MC_EQ(live, T().live.size(), "live mixins");
        for (auto x : {&r[0], &r[1], &cres, &ma.r, &mb.r, &def_res()}) MC_EQ(x->live.size(), blocks[x], "blocks of " << x->name);
        // types and registries
        domain_traverse tr(*d);
        tr.traverse_types([&](const type& t) { MC_CHECK(dres.owns(&t), "a type isn't from the allocator of its domain"); ++expect; });
        MC_CHECK(dres.live.size() >= expect, "memory of types");
    }
    void changed(mobj& x, const list& l) {
        for (int i = 0; i < NM; ++i) if (!has(l, i)) { x.addr.erase(i); x.v.erase(i); }
        x.l = l; x.exists = true;
    }
};

void run(bool dedup, int depth) {
    world w;
    const std::vector<list> L = {{}, {0, 5}, {1}, {2, 0}, {1, 3, 0}, {4, 5, 2}, {5, 4, 3, 2, 1, 0}};
    enum { o_create, o_reset, o_reset_fail, o_gradual, o_copy, o_copy_from, o_move, o_move_ctor, o_swap, o_destroy, o_gc, o_abandon, o_reregister, o_count };
    for (int i = 0; i < depth; ++i) {
        int k = mc::choose(o_count), s = k == o_gc || k == o_swap ? 0 : mc::choose(2);
        int li = k == o_create || k == o_reset || k == o_reset_fail || k == o_gradual || k == o_abandon ? mc::choose(int(L.size())) : 0;
        int al = k == o_create || k == o_copy ? mc::choose(3) : 0;
        if (mc::pruned()) return;
        auto& l = L[size_t(li)];
        auto &x = w.o[s], &y = w.o[1 - s]; auto &mx = w.m[s], &my = w.m[1 - s];
        if (k == o_create || k == o_move_ctor) { if (x) return; }
        else if (k == o_gc || k == o_reregister) {}
        else if (!x && k != o_copy) return;
        if ((k == o_copy || k == o_copy_from || k == o_move || k == o_move_ctor || k == o_swap) && !y) return;
        switch (k) {
        case o_create:
            MC_STEP("object " << s << " created of " << show(l) << " with allocator " << al);
            x = al == 2 ? std::make_unique<object>(w.ty(l)) : std::make_unique<object>(w.ty(l), allocator(&w.alloc(al)));
            mx = {}; mx.al = al; w.changed(mx, l);
            break;
        case o_reset: MC_STEP("object " << s << " reset to " << show(l)); x->reset_type(w.ty(l)); w.changed(mx, l); break;
        case o_reset_fail: {
            MC_STEP("object " << s << " reset to " << show(l) << " with the last initialization failing");
            static int left; left = 0; for (int q : l) if (!has(mx.l, q)) ++left;
            if (!left) return;
            auto& t = w.ty(l);
            T().fault = [](fn f, const probe&) { return f == f_init && --left == 0 ? 1 : 0; };
            auto out = outcome_of([&] { x->reset_type(t); });
            T().fault = nullptr;
            MC_EQ(out, std::string("object_error"), "failing initialization");
            break;
        }
        case o_gradual: MC_STEP("object " << s << " gradually to " << show(l)); { auto g = mutate(*x); for (int q : mx.l) if (!has(l, q)) g.remove(w.mi(q)); for (int q : l) { g.add_if_lacking(w.mi(q)); g.to_back(w.mi(q)); } } w.changed(mx, l); break;
        case o_copy:
            MC_STEP("object " << s << " copied from the other with allocator " << al);
            x = std::make_unique<object>(al == 2 ? y->copy() : y->copy(allocator(&w.alloc(al))));
            mx = {}; mx.al = al; mx.v = my.v; w.changed(mx, my.l);
            break;
        case o_copy_from: MC_STEP("object " << s << " copy_from the other"); x->copy_from(*y); mx.v = my.v; w.changed(mx, my.l); break;
        case o_move: {
            MC_STEP("object " << s << " moved from the other with allocators " << mx.al << my.al);
            auto out = outcome_of([&] { *x = std::move(*y); });
            MC_EQ(out, std::string(mx.al == my.al ? "" : "object_error"), "move");
            if (out.empty()) { mx = my; w.changed(my, {}); }
            break;
        }
        case o_move_ctor: MC_STEP("object " << s << " constructed from the other"); x = std::make_unique<object>(std::move(*y)); mx = my; w.changed(my, {}); break;
        case o_swap: {
            if (mx.al != my.al) return;
            MC_STEP("swap");
            std::swap(*x, *y); std::swap(mx, my);
            break;
        }
        case o_destroy: MC_STEP("object " << s << " destroyed"); x.reset(); mx = {}; break;
        case o_gc: {
            MC_STEP("collection");
            w.d->garbage_collect_types();
            break;
        }
        case o_abandon: {
            MC_STEP("mutation of object " << s << " to " << show(l) << " abandoned after a step");
            try { object_mutation mu(*x, w.ty(l)); mu.default_construct_each_new_mixin(1); throw 1; } catch (int) {}
            break;
        }
        case o_reregister:
            if (has(w.m[0].l, s ? 1 : 4) || has(w.m[1].l, s ? 1 : 4)) return;
            MC_STEP("mixin " << (s ? "b" : "e") << " unregistered and registered");
            { auto& p = w.ps[s ? 1 : 4]; w.d->unregister_mixin(p.info); w.d->register_mixin(p.info); }
            break;
        }
        w.check();
        std::string key; for (auto& q : w.m) key += q.exists ? show(q.l) + char('0' + q.al) : "-";
        key += MC_STR('t' << w.d->num_types()); w.d->garbage_collect_types();
        mc::outcome(key);
        if (dedup && !mc::visit(key, depth - 1 - i)) return;
    }
}

// an allocation function which returns null
void null_allocator() {
    int which = mc::choose(4);
    if (mc::pruned()) return;
    world w;
    std::string out;
    auto& t = w.ty({0, 1, 4, 5}); auto& t2 = w.ty({0, 5});
    if (which == 0) { w.cres.name = "none"; out = outcome_of([&] { object x(t, allocator(&w.r[0])); }); }
    else {
        object x(which == 3 ? t : t2, allocator(&w.r[0]));
        w.cres.name = "none";
        if (which == 1) out = outcome_of([&] { x.reset_type(t); });
        if (which == 2) out = outcome_of([&] { mutate(x, dynamix::add("e")); });
        if (which == 3) out = outcome_of([&] { auto y = x.copy(allocator(&w.r[1])); });
        MC_CHECK(x.get_type() == (which == 3 ? t : t2), "type after a failed allocation");
        MC_EQ(T().live.size(), size_t(which == 3 ? 4 : 2), "mixins after a failed allocation");
    }
    MC_STEP("null from a C allocation function: " << which);
    MC_EQ(out, std::string("bad_alloc"), "null from a C allocation function");
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("null-allocations", [] { null_allocator(); });
        mc::section("two-objects/all-sequences", [] { run(false, pick(3, 4)); });
        mc::section("two-objects/all-states", [] { run(true, pick(5, 8)); });
        mc::section("many-mixins/all-operations", [] { wide::object_histories(pick(129, 1025)); });
    });
}
