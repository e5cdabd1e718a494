// Canonical order of mixins: order axioms over a grid of keys, canonical types over all permutations, order of types.
#include "kit.hpp"
#include "wide.hpp"
#include <algorithm>
using namespace kit;

namespace {
const char STORE[] = "abc"; // names which share storage
const char ZST[] = {'a', 0, 'b'};
dnmx_sv sv(const char* p, size_t n) { return dnmx_make_sv_be(p, p + n); }
std::vector<dnmx_sv> name_pool() {
    return {sv(STORE, 0), sv(STORE, 1), sv(STORE, 2), sv(STORE + 1, 1), dnmx_make_sv_lit("a"), dnmx_make_sv_lit("ab"), dnmx_make_sv_lit("\xff"), sv(ZST, 2), sv(nullptr, 0)};
}
int sgn(int x) { return x < 0 ? -1 : x > 0; }

// reference
int ref_cmp(const mixin_info* a, const mixin_info* b) {
    if (a->order_priority != b->order_priority) return a->order_priority < b->order_priority ? -1 : 1;
    std::string x(a->name.to_std()), y(b->name.to_std());
    if (int c = sgn(x.compare(y))) return c;
    if (a->id.i != b->id.i) return a->id.i < b->id.i ? -1 : 1;
    return 0;
}

void axioms() {
    static const int32_t prios[] = {INT32_MIN, -1, 0, 1, INT32_MAX};
    static const dnmx_id_int_t ids[] = {0, 1, dnmx_invalid_id};
    static auto np = name_pool();
    mixin_info m[3];
    for (int i = 0; i < 3; ++i) {
        m[i] = dnmx_make_mixin_info();
        m[i].order_priority = prios[mc::choose(5)];
        m[i].name = np[size_t(mc::choose(int(np.size())))];
        m[i].id.i = ids[mc::choose(3)];
        if (mc::pruned()) return;
        if (i == 1) {
            MC_STEP("compare (" << m[0].order_priority << ",'" << m[0].name.to_std() << "'," << m[0].id.i << ") and (" << m[1].order_priority << ",'" << m[1].name.to_std() << "'," << m[1].id.i << ")");
            auto less = [&](int x, int y) { return dnmx_mixin_canonical_order(&m[x], &m[y]); };
            int r = ref_cmp(&m[0], &m[1]);
            bool l01 = less(0, 1), l10 = less(1, 0);
            MC_CHECK(!less(0, 0) && !less(1, 1), "irreflexive");
            MC_CHECK(l01 != l10, "distinct mixins must be ordered in exactly one way");
            if (r) MC_EQ(l01, r < 0, "canonical order");
            MC_EQ(canonical_mixin_order{}(&m[0], &m[1]), l01, "C++ order");
            mc::outcome(std::to_string(l01) + std::to_string(r));
            if (!mc::thorough) {
                // the third one from a smaller set
                for (int p : {-1, 0}) for (auto& n : np) for (auto id : {0u, 1u}) {
                    m[2] = dnmx_make_mixin_info(); m[2].order_priority = p; m[2].name = n; m[2].id.i = id;
                    if (less(0, 1) && less(1, 2)) MC_CHECK(less(0, 2), "transitive");
                    if (less(1, 2) && less(2, 0)) MC_CHECK(less(1, 0), "transitive");
                    if (less(2, 0) && less(0, 1)) MC_CHECK(less(2, 1), "transitive");
                }
                return;
            }
        }
    }
    auto less = [&](int x, int y) { return dnmx_mixin_canonical_order(&m[x], &m[y]); };
    MC_STEP("triple");
    int p[3] = {0, 1, 2};
    do { if (less(p[0], p[1]) && less(p[1], p[2])) MC_CHECK(less(p[0], p[2]), "transitive"); } while (std::next_permutation(p, p + 3));
}

// types over mixins with chosen keys
void types(bool canonical, int n) {
    world_guard wg;
    static const int32_t prios[] = {0, 1, -5};
    static const std::vector<dnmx_sv> np = {sv(STORE, 1), sv(STORE, 2), sv(STORE + 1, 1), sv(nullptr, 0)};
    std::deque<probe> ps;
    for (int i = 0; i < n; ++i) {
        ps.emplace_back("x");
        ps.back().info.order_priority = prios[mc::choose(i == 0 ? 2 : 3)];
        ps.back().info.name = np[size_t(mc::choose(4))];
    }
    // order of registration is independent of the order of addresses
    int rot = mc::choose(n);
    if (mc::pruned()) return;
    domain_settings st = {}; st.canonicalize_types = canonical; st.allow_duplicate_mixin_names = true;
    domain d("d", st);
    for (int i = 0; i < n; ++i) d.register_mixin(ps[size_t((i * (n - 1) + rot) % n)].info);
    std::map<infos, const type*> all;
    auto show = [&](const infos& l) { std::string s; for (auto m : l) s += MC_STR("(" << m->order_priority << ",'" << m->name.to_std() << "'," << m->id.i << ")"); return s; };
    for (int mask = 1; mask < (1 << n); ++mask) {
        infos l; for (int i = 0; i < n; ++i) if (mask & (1 << i)) l.push_back(&ps[size_t(i)].info);
        auto ref = l; std::sort(ref.begin(), ref.end(), [](auto a, auto b) { return ref_cmp(a, b) < 0; });
        std::sort(l.begin(), l.end());
        const type* first = nullptr; int e = 0;
        do {
            MC_STEP("request " << show(l));
            const type* t;
            if (++e & 1) t = &d.get_type(l);
            else { type_mutation m(d); for (auto i : l) m.add(*i); t = &d.get_type(std::move(m)); }
            if (canonical) {
                MC_CHECK(type_mixins(*t) == ref, "mixins of a canonical type: got " << show(type_mixins(*t)) << " expected " << show(ref));
                MC_CHECK(!first || t == first, "two types for one set of mixins");
                if (!first && l.size() > 1) {
                    // the same through an object which gets its mixins one by one in this order
                    object o(d);
                    for (auto i : l) { type_mutation m(o.get_type()); m.add(*i); o.reset_type(d.get_type(std::move(m))); }
                    MC_CHECK(&o.get_type() == t, "type of an object which got the mixins one by one");
                }
                first = t;
            }
            else MC_CHECK(type_mixins(*t) == l, "type has other mixins");
            all[type_mixins(*t)] = t;
        } while (std::next_permutation(l.begin(), l.end()));
    }
    all[{}] = &d.get_empty_type();
    if (canonical) MC_EQ(d.num_types(), size_t(1 << n) - 1, "number of types");
    // order of types
    std::string oc;
    for (auto& x : all) for (auto& y : all) {
        MC_STEP("compare types " << show(x.first) << " and " << show(y.first));
        int r = 0;
        for (size_t i = 0; !r; ++i) {
            if (i == x.first.size() || i == y.first.size()) { r = x.first.size() == y.first.size() ? 0 : i == x.first.size() ? -1 : 1; break; }
            if (x.first[i] != y.first[i]) r = ref_cmp(x.first[i], y.first[i]);
        }
        MC_EQ(sgn(x.second->compare(*y.second)), r, "order of types");
        MC_EQ(*x.second == *y.second, r == 0, "equality of types");
        oc += char('1' + r);
    }
    mc::outcome(oc);
}

// types of two domains are ordered by domain
void domains() {
    world_guard wg;
    probe a("a"), b("b"), c("c"), e("e");
    a.info.order_priority = mc::choose(3) - 1; c.info.order_priority = mc::choose(3) - 1;
    if (mc::pruned()) return;
    domain d1("1"), d2("2");
    d1.register_mixin(a); d1.register_mixin(b); d2.register_mixin(c); d2.register_mixin(e);
    std::vector<const type*> t1{&d1.get_empty_type(), &d1.get_type(infos{&a.info}), &d1.get_type(infos{&a.info, &b.info})}, t2{&d2.get_empty_type(), &d2.get_type(infos{&c.info}), &d2.get_type(infos{&e.info, &c.info})};
    int s = sgn(t1[0]->compare(*t2[0]));
    MC_CHECK(s != 0, "types of different domains are different");
    for (auto x : t1) for (auto y : t2) { MC_STEP("compare across domains"); MC_EQ(sgn(x->compare(*y)), s, "order across domains"); MC_EQ(sgn(y->compare(*x)), -s, "order across domains"); }
    mc::outcome(std::to_string(s));
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("order-axioms", axioms);
        mc::section("canonical-types", [] { types(true, 4); });
        mc::section("types-order", [] { types(false, 3); });
        mc::section("domains", domains);
        mc::section("many-mixins", [] { wide::canonical(pick(129, 513)); });
    });
}
