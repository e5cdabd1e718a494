// Copies and moves between objects, with mixins which have all combinations of the functions for that.
#include "kit.hpp"
#include "wide.hpp"
#include <dnmx/object.h>
#include <algorithm>
using namespace kit;

namespace {
using list = std::vector<int>;
std::string show(const list& l) { std::string s; for (int i : l) s += char('a' + i); return "[" + s + "]"; }
bool has(const list& l, int m) { return std::find(l.begin(), l.end(), m) != l.end(); }
enum { fm_copy_init = 1, fm_copy_asgn = 2, fm_move_asgn = 4, fm_move_init = 8, fm_external = 16, fm_all = 32, fm_no_destroy = 64 };

struct mobj { bool exists = false; list l; std::map<int, int> v; int al = 0; };

struct world {
    world_guard wg;
    res dres{"domain"}, r0{"zero"}, r1{"one"};
    mixalloc ma{"mixin"};
    std::deque<probe> ps;
    std::vector<int> mask;
    std::unique_ptr<domain> d;
    std::vector<std::unique_ptr<object>> o; std::vector<mobj> m;
    world(std::vector<int> masks, int nobj) : mask(masks), o(size_t(nobj)), m(size_t(nobj)) {
        d = std::make_unique<domain>("d", domain_settings{}, 0, nullptr, allocator(&dres));
        for (size_t i = 0; i < masks.size(); ++i) {
            ps.emplace_back(std::string(1, char('a' + i)), uint32_t(8 + 4 * i), 4);
            auto& f = ps.back().info;
            if (!(masks[i] & fm_copy_init)) f.copy_init = nullptr;
            if (!(masks[i] & fm_copy_asgn)) f.copy_asgn = nullptr;
            if (!(masks[i] & fm_move_asgn)) f.move_asgn = nullptr;
            if (!(masks[i] & fm_move_init)) f.move_init = nullptr;
            if (masks[i] & fm_external) { if (i & 1) ps.back().uses(ma); else ps.back().external(); }
            if (masks[i] & fm_no_destroy) f.destroy = nullptr;
            d->register_mixin(f);
        }
    }
    ~world() { o.clear(); d.reset(); ma.r.check_empty("end"); }
    const mixin_info& mi(int i) { return ps[size_t(i)].info; }
    const type& ty(const list& l) { infos v; for (int i : l) v.push_back(&mi(i)); return d->get_type(v); }
    res& alloc(int a) { return a == 2 ? def_res() : a ? r1 : r0; }
    bool ext(int i) { return (mask[size_t(i)] & fm_external) || !(mask[size_t(i)] & fm_move_init); }
    void make(int k, const list& l, int al) {
        o[size_t(k)] = std::make_unique<object>(ty(l), allocator(&alloc(al)));
        auto& x = m[size_t(k)]; x = {}; x.exists = true; x.l = l; x.al = al;
        for (int i : l) x.v[i] = probe::alive(&mi(i), o[size_t(k)]->get(mi(i)), "make").val;
    }
    void check() {
        block_set b; size_t n = 0;
        for (size_t k = 0; k < o.size(); ++k) {
            MC_EQ(bool(o[k]), m[k].exists, "object exists");
            if (!o[k]) continue;
            auto& x = *o[k]; auto& r = m[k];
            MC_CHECK(x.get_type() == ty(r.l), "type of object " << k << ": " << names(type_mixins(x.get_type())) << " expected " << show(r.l));
            MC_CHECK(x.get_allocator() == allocator(&alloc(r.al)), "allocator of object " << k);
            check_layout(x, alloc(r.al), b);
            for (int i : r.l) { ++n; MC_EQ(probe::alive(&mi(i), x.get(mi(i)), "check").val, r.v.at(i), "value of mixin " << char('a' + i) << " of object " << k); }
        }
        MC_EQ(n, T().live.size(), "live mixins");
        MC_EQ(b.blocks.size(), r0.live.size() + r1.live.size() + def_res().live.size() + ma.r.live.size(), "blocks in use");
    }
    std::map<const void*, int> snapshot() { std::map<const void*, int> s; for (auto& e : T().live) s[e.first] = e.second.val; return s; }
};

enum { op_copy, op_copy_def, op_copy_from, op_copy_match, op_move_match, op_move_match_fb, op_move_ctor, op_move_asgn, op_count };
const char* op_names[] = {"copy", "copy with default allocator", "copy_from", "copy_matching_from", "move_matching_from", "move_matching_from with fallback", "move construction", "move assignment"};

// t <- s
bool perform(world& w, int k, int t, int s) {
    auto& y = w.o[size_t(t)]; auto& x = w.o[size_t(s)];
    auto& my = w.m[size_t(t)]; auto& mx = w.m[size_t(s)];
    if (!x) return false;
    bool replaces = k == op_copy || k == op_copy_def || k == op_move_ctor;
    if (!replaces && !y) return false;
    if (t == s && (k == op_move_match || k == op_move_match_fb || k == op_move_ctor)) return false;
    // what is needed
    std::string expect;
    auto lacks = [&](int i, int f) { return !(w.mask[size_t(i)] & f); };
    switch (k) {
    case op_copy: case op_copy_def: for (int i : mx.l) if (lacks(i, fm_copy_init)) expect = "object_error"; break;
    case op_copy_from: for (int i : mx.l) if (lacks(i, has(my.l, i) ? fm_copy_asgn : fm_copy_init)) expect = "object_error"; break;
    case op_copy_match: for (int i : mx.l) if (has(my.l, i) && lacks(i, fm_copy_asgn)) expect = "object_error"; break;
    case op_move_match: for (int i : mx.l) if (has(my.l, i) && lacks(i, fm_move_asgn)) expect = "object_error"; break;
    case op_move_match_fb: for (int i : mx.l) if (has(my.l, i) && lacks(i, fm_move_asgn) && lacks(i, fm_move_init)) expect = "object_error"; break;
    case op_move_asgn: if (t != s && mx.al != my.al) expect = "object_error"; break;
    }
    auto before = w.snapshot();
    std::map<int, const void*> xa, ya; for (int i : mx.l) xa[i] = x->get(w.mi(i)); if (y) for (int i : my.l) ya[i] = y->get(w.mi(i));
    auto calls = T().calls[f_copy_asgn] + T().calls[f_move_asgn];
    std::unique_ptr<object> made;
    auto out = outcome_of([&] {
        switch (k) {
        case op_copy: made = std::make_unique<object>(x->copy(allocator(&w.r1))); break;
        case op_copy_def: made = std::make_unique<object>(x->copy()); break;
        case op_copy_from: y->copy_from(*x); break;
        case op_copy_match: y->copy_matching_from(*x); break;
        case op_move_match: y->move_matching_from(*x); break;
        case op_move_match_fb: y->move_matching_from(*x, true); break;
        case op_move_ctor: made = std::make_unique<object>(std::move(*x)); break;
        case op_move_asgn: *y = std::move(*x); break;
        }
    });
    MC_STEP(op_names[k] << " of object " << s << ' ' << show(mx.l) << " to " << t << ' ' << (y ? show(my.l) : "-") << " -> " << (out.empty() ? "done" : out));
    MC_EQ(out, expect, op_names[k]);
    if (!out.empty()) {
        MC_CHECK(w.snapshot() == before, "a refused operation changed something");
        MC_EQ(T().calls[f_copy_asgn] + T().calls[f_move_asgn], calls, "a refused operation assigned mixins");
        w.check();
        return true;
    }
    if (made) y = std::move(made);
    switch (k) {
    case op_copy: case op_copy_def:
        my = mx; my.al = k == op_copy ? 1 : 2;
        if (t != s) for (int i : mx.l) MC_CHECK(x->get(w.mi(i)) == xa[i] && y->get(w.mi(i)) != xa[i], "a mixin of the copy is the mixin of the source");
        break;
    case op_copy_from: {
        bool same = mx.l == my.l;
        for (int i : my.l) if (has(mx.l, i) && (same || w.ext(i))) MC_CHECK(y->get(w.mi(i)) == ya[i], "address of mixin " << char('a' + i) << " which was kept");
        int al = my.al; my = mx; my.al = al;
        break;
    }
    case op_copy_match: for (int i : my.l) if (has(mx.l, i)) my.v[i] = mx.v[i]; break;
    case op_move_match: case op_move_match_fb: for (int i : my.l) if (has(mx.l, i)) { my.v[i] = mx.v[i]; mx.v[i] = -1; } break;
    case op_move_ctor: case op_move_asgn:
        if (t == s) break;
        for (int i : mx.l) MC_CHECK(y->get(w.mi(i)) == xa[i], "address of mixin " << char('a' + i) << " after a move");
        my = mx; mx.l.clear(); mx.v.clear();
        break;
    }
    if (k == op_copy_match || k == op_move_match || k == op_move_match_fb) {
        for (int i : my.l) MC_CHECK(y->get(w.mi(i)) == ya[i], "address of a mixin of the target");
        for (int i : mx.l) MC_CHECK(x->get(w.mi(i)) == xa[i], "address of a mixin of the source");
    }
    w.check();
    return true;
}

// all masks of the mixins, all pairs of lists
void masks(int n, std::vector<int> use, std::vector<list> L) {
    std::vector<int> mk; for (int i = 0; i < n; ++i) mk.push_back(use[size_t(mc::choose(int(use.size())))]);
    auto& a = L[size_t(mc::choose(int(L.size())))]; auto& b = L[size_t(mc::choose(int(L.size())))];
    if (mc::pruned()) return;
    for (int k = 0; k < op_count; ++k) for (int al = 0; al < 2; ++al) for (int self = 0; self < 2; ++self) {
        if (al && k != op_move_asgn) continue;
        world w(mk, 2);
        w.make(0, a, 0); w.make(1, b, al);
        w.check();
        perform(w, k, self ? 0 : 1, 0);
        // both are usable
        for (int q = 0; q < 2; ++q) { w.o[size_t(q)]->reset_type(w.ty(b)); w.o[size_t(q)]->clear(); w.m[size_t(q)].l.clear(); }
        w.check();
        mc::outcome(MC_STR(k << mk[0] << mk[1] << show(a) << show(b)));
    }
}

void sequences(bool dedup, int depth, int nobj) {
    // a: everything, internal; b: no assignments; c: external, can't be moved or copied; d: external with an allocator
    world w({fm_copy_init | fm_copy_asgn | fm_move_asgn | fm_move_init, fm_copy_init | fm_move_init, fm_copy_asgn, fm_external | fm_copy_init | fm_copy_asgn | fm_move_init}, nobj);
    const std::vector<list> L = {{}, {0}, {1, 0}, {0, 3}, {3, 0, 2}};
    for (int i = 0; i < depth; ++i) {
        int k = mc::choose(op_count + 2), t = mc::choose(nobj), s = k < op_count ? mc::choose(nobj) : 0;
        int li = k == op_count ? mc::choose(int(L.size())) : 0, al = k == op_count ? mc::choose(2) : 0;
        if (mc::pruned()) return;
        if (k < op_count) { if (!perform(w, k, t, s)) return; }
        else if (k == op_count) { MC_STEP("object " << t << " created of " << show(L[size_t(li)])); w.make(t, L[size_t(li)], al); }
        else { if (!w.o[size_t(t)]) return; MC_STEP("object " << t << " destroyed"); w.o[size_t(t)].reset(); w.m[size_t(t)] = {}; }
        w.check();
        std::map<int, int> ren; ren[-1] = -1; std::string key;
        for (auto& x : w.m) { key += x.exists ? MC_STR('O' << x.al) : "-"; for (int q : x.l) { int v = x.v[q]; if (!ren.count(v)) { int c = int(ren.size()); ren[v] = c; } key += MC_STR(char('a' + q) << ren[v]); } key += '|'; }
        mc::outcome(key);
        if (dedup && !mc::visit(key, depth - 1 - i)) return;
    }
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        std::vector<int> all; for (int i = 0; i < fm_all; ++i) all.push_back(i);
        mc::section("two-mixins/all-functions", [=] { masks(2, all, {{}, {0}, {1}, {0, 1}, {1, 0}}); });
        mc::section("two-mixins/no-destroy", [=] { masks(2, {64 + 15, 64 + 14, 64 + 13, 64 + 11, 64 + 9, 64 + 7, 64 + 31, 64 + 0, 15, 9}, {{}, {0}, {0, 1}, {1, 0}}); });
        mc::section("three-mixins/functions", [=] {
            if (mc::thorough) masks(3, {15, 14, 13, 11, 7, 31, 17, 12, 8, 0}, {{}, {0, 1, 2}, {2, 0}, {1, 2}, {2, 1, 0}});
            else masks(3, {15, 14, 13, 11, 31}, {{0, 1, 2}, {2, 0}, {1, 2}});
        });
        mc::section("two-objects/all-states", [] { sequences(true, pick(5, 9), 2); });
        mc::section("two-objects/all-sequences", [] { sequences(false, pick(3, 4), 2); });
        mc::section("three-objects/all-states", [] { sequences(true, pick(4, 6), 3); });
        mc::section("many-mixins/all-operations", [] { wide::object_histories(pick(129, 1025)); });
    });
}
