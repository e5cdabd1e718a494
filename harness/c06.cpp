// Object layout: every mixin has its own aligned memory in the right block and leads back to its object, for all shapes.
#include "kit.hpp"
#include "wide.hpp"
#include <algorithm>
using namespace kit;

namespace {
struct shape { uint32_t size, align; int kind; }; // kind: 0 internal, 1 forced external, 2 external through no move, 3 own allocator
const uint32_t SA[][2] = {{0, 0}, {1, 1}, {3, 1}, {8, 8}, {5, 8}, {16, 16}, {20, 32}, {64, 64}, {6, 2}, {24, 4}, {128, 128}, {17, 16}, {0, 16}};
constexpr int NSA = sizeof(SA) / sizeof(*SA);

struct world {
    world_guard wg;
    res dres{"domain"}, ores{"objects"};
    mixalloc ma{"mixin"};
    std::deque<probe> ps;
    std::unique_ptr<domain> d;
    std::deque<std::unique_ptr<object>> objs;
    explicit world(const std::vector<shape>& s) {
        d = std::make_unique<domain>("d", domain_settings{}, 0, nullptr, allocator(&dres));
        for (size_t i = 0; i < s.size(); ++i) {
            ps.emplace_back(std::string(1, char('a' + i)), s[i].size, s[i].align);
            if (s[i].kind == 1) ps.back().external();
            if (s[i].kind == 2) ps.back().no_move();
            if (s[i].kind == 3) ps.back().uses(ma);
            d->register_mixin(ps.back().info);
        }
    }
    ~world() { objs.clear(); d.reset(); ma.r.check_empty("end"); }
    const type& ty(const std::vector<int>& l) { infos v; for (int i : l) v.push_back(&ps[size_t(i)].info); return d->get_type(v); }
    void check() {
        block_set b; size_t n = 0;
        for (auto& o : objs) {
            if (!o) continue;
            check_layout(*o, ores, b);
            for (mixin_index_t i = 0; i < o->num_mixins(); ++i) { T().val(o->get_at(i)); probe::alive(o->get_type().mixins[i], o->get_at(i), "check"); ++n; }
        }
        MC_EQ(b.blocks.size(), ores.live.size() + ma.r.live.size(), "blocks in use");
        MC_EQ(n, T().live.size(), "live mixins");
    }
};
std::string show(const std::vector<int>& l) { std::string s; for (int i : l) s += char('a' + i); return "[" + s + "]"; }

// all shapes of two or three mixins: a fixed walk through all types
void shapes(int n, int nsa, int nkinds) {
    std::vector<shape> s;
    for (int i = 0; i < n; ++i) {
        int a = mc::choose(nsa), k = mc::choose(nkinds);
        if (mc::pruned()) return;
        s.push_back({SA[a][0], SA[a][1], k});
        MC_LOG("mixin " << char('a' + i) << ": size " << SA[a][0] << " alignment " << SA[a][1] << " kind " << k);
    }
    world w(s);
    std::vector<std::vector<int>> lists;
    std::vector<int> p; for (int i = 0; i < n; ++i) p.push_back(i);
    do { for (int k = 1; k <= n; ++k) { std::vector<int> l(p.begin(), p.begin() + k); if (std::find(lists.begin(), lists.end(), l) == lists.end()) lists.push_back(l); } } while (std::next_permutation(p.begin(), p.end()));
    w.objs.resize(2);
    for (auto& l : lists) {
        MC_STEP("create " << show(l));
        auto& t = w.ty(l);
        MC_CHECK(t.mixin_offsets.size() == l.size(), "number of offsets");
        w.objs[1] = std::make_unique<object>(t, allocator(&w.ores));
        w.check();
        MC_STEP("mutate the other to " << show(l));
        if (!w.objs[0]) w.objs[0] = std::make_unique<object>(t, allocator(&w.ores)); else w.objs[0]->reset_type(t);
        w.check();
        MC_STEP("move construct and move assign back");
        w.objs.push_back(std::make_unique<object>(std::move(*w.objs[1])));
        w.check();
        *w.objs[1] = std::move(*w.objs[2]);
        w.check();
        w.objs.pop_back();
    }
    std::string k;
    for (auto& l : lists) { auto& t = w.ty(l); k += MC_STR(t.object_buffer_size << '/' << t.object_buffer_alignment << ';'); for (auto o : t.mixin_offsets) k += MC_STR(o << ' '); }
    mc::outcome(k);
}

// all sequences of operations on two objects
void ops(const std::vector<shape>& s, int depth) {
    world w(s);
    w.objs.resize(2);
    int n = int(s.size());
    std::vector<std::vector<int>> lists = {{}};
    for (int a = 0; a < n; ++a) { lists.push_back({a}); for (int b = 0; b < n; ++b) if (b != a) { lists.push_back({a, b}); for (int c = 0; c < n; ++c) if (c != a && c != b && a < c) lists.push_back({a, b, c}); } }
    for (int i = 0; i < depth; ++i) {
        int op = mc::choose(int(lists.size()) + 3), o = mc::choose(2);
        if (mc::pruned()) return;
        auto& x = w.objs[size_t(o)]; auto& y = w.objs[size_t(1 - o)];
        if (op < int(lists.size())) {
            MC_STEP("object " << o << " gets type " << show(lists[size_t(op)]));
            // common external mixins keep their addresses
            std::map<const mixin_info*, void*> ext;
            if (x) for (auto m : x->get_type().mixins) if (m->external()) ext[m] = x->get(*m);
            auto& t = w.ty(lists[size_t(op)]);
            if (x) x->reset_type(t); else x = std::make_unique<object>(t, allocator(&w.ores));
            for (auto& e : ext) if (t.has(*e.first)) MC_CHECK(x->get(*e.first) == e.second, "external mixin changed its address");
        }
        else if (op == int(lists.size())) { if (!x) return; MC_STEP("destroy " << o); x.reset(); }
        else if (op == int(lists.size()) + 1) {
            if (!x) return;
            MC_STEP("move " << o);
            std::vector<void*> p; for (mixin_index_t k = 0; k < x->num_mixins(); ++k) p.push_back(x->get_at(k));
            if (y) *y = std::move(*x); else y = std::make_unique<object>(std::move(*x));
            for (mixin_index_t k = 0; k < y->num_mixins(); ++k) MC_CHECK(p[k] == y->get_at(k), "mixin changed its address in a move");
            MC_EQ(p.size(), size_t(y->num_mixins()), "mixins after a move");
        }
        else {
            if (!x) return;
            MC_STEP("copy " << o);
            if (y) y->copy_from(*x); else y = std::make_unique<object>(x->copy(allocator(&w.ores)));
        }
        w.check();
    }
    std::string k; for (auto& o : w.objs) { if (o) for (auto m : o->get_type().mixins) k += std::string(m->name.to_std()); k += '|'; }
    mc::outcome(k);
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("two-mixins/all-shapes", [] { shapes(2, NSA, 4); });
        mc::section("three-mixins/all-shapes", [] { shapes(3, pick(7, NSA), pick(3, 4)); });
        mc::section("four-mixins/all-shapes", [] { shapes(4, pick(3, 6), 2); });
        mc::section("operations/all-sequences", [] { ops({{3, 1, 0}, {20, 32, 1}, {8, 8, 3}}, pick(3, 5)); });
        mc::section("operations-2/all-sequences", [] { ops({{64, 64, 0}, {1, 1, 0}, {16, 16, 2}}, pick(3, 5)); });
        mc::section("many-mixins/all-operations", [] { wide::object_histories(pick(129, 1025)); });
    });
}
