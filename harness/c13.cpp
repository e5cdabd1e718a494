// Equality and order of all pairs of objects of a pool, for all combinations of comparison functions and order priorities.
#include "kit.hpp"
#include "wide.hpp"
#include <dnmx/object.h>
#include <algorithm>
using namespace kit;

namespace {
using list = std::vector<int>;
std::string show(const list& l) { std::string s; for (int i : l) s += char('a' + i); return "[" + s + "]"; }
int sgn(int x) { return (x > 0) - (x < 0); }
enum { m_equals = 1, m_compare = 2 };

struct entry { std::unique_ptr<object> o; int dom; list l; std::vector<int> v; };

void all_pairs(int n, bool canonical, std::vector<int> masks, std::vector<int> prios, size_t maxlen, bool mutated) {
    std::vector<int> mask, prio;
    for (int i = 0; i < n; ++i) mask.push_back(masks[size_t(mc::choose(int(masks.size())))]);
    for (int i = 0; i < n; ++i) prio.push_back(prios[size_t(mc::choose(int(prios.size())))]);
    int naming = mc::choose(2); // names in the order of the mixins or reversed
    if (mc::pruned()) return;
    world_guard wg;
    res dres{"domain"}, ores{"objects"};
    std::deque<probe> ps[2]; // of each domain
    domain_settings s{}; s.canonicalize_types = canonical;
    // adjacent, so that the order of their addresses is known from &ds[0] < &ds[1]
    std::deque<domain> ds;
    for (int k = 0; k < 2; ++k) {
        ds.emplace_back("d", s, 0, nullptr, allocator(&dres));
        for (int i = 0; i < n; ++i) {
            auto& p = ps[k].emplace_back(std::string(1, char(naming ? 'z' - i : 'a' + i)));
            p.info.order_priority = prio[size_t(i)];
            if (!(mask[size_t(i)] & m_equals)) p.info.equals = nullptr;
            if (!(mask[size_t(i)] & m_compare)) p.info.compare = nullptr;
            if (i == 1) p.external();
            ds.back().register_mixin(p.info);
        }
    }
    // canonical order
    auto before = [&](int a, int b) { if (prio[size_t(a)] != prio[size_t(b)]) return prio[size_t(a)] < prio[size_t(b)]; return naming ? a > b : a < b; };
    // pool
    std::vector<entry> pool;
    std::function<void(list)> gen = [&](list l) {
        bool dom2 = l.size() <= 1;
        for (int k = 0; k <= (dom2 ? 1 : 0); ++k) {
            for (int bits = 0; bits < (1 << l.size()); ++bits) {
                if (l.size() > 2 && bits & 1 && bits & 2 && mc::pick(1, 0)) continue;
                entry e; e.dom = k; e.l = l;
                infos v; for (int i : l) v.push_back(&ps[k][size_t(i)].info);
                if (canonical) std::sort(e.l.begin(), e.l.end(), before);
                e.o = std::make_unique<object>(ds[size_t(k)].get_type(v), allocator(&ores));
                if (mutated) { e.o->clear(); e.o->reset_type(ds[size_t(k)].get_type(v)); }
                for (size_t q = 0; q < e.l.size(); ++q) {
                    int val = 1 + ((bits >> q) & 1);
                    e.v.push_back(val);
                    T().set(e.o->get(ps[k][size_t(e.l[q])].info), val);
                }
                pool.push_back(std::move(e));
            }
        }
        if (l.size() < maxlen) for (int i = 0; i < n; ++i) if (std::find(l.begin(), l.end(), i) == l.end()) {
            auto q = l; q.push_back(i);
            if (canonical && !std::is_sorted(q.begin(), q.end())) continue; // the same types again
            gen(q);
        }
    };
    gen({});
    int first_dom = &ds[0] < &ds[1] ? 0 : 1;
    // reference
    auto eq = [&](const entry& a, const entry& b) {
        if (&a == &b) return true;
        if (a.dom != b.dom || a.l != b.l) return false;
        for (size_t i = 0; i < a.l.size(); ++i) { if (!mask[size_t(a.l[i])] || a.v[i] != b.v[i]) return false; }
        return true;
    };
    // 2: error; any: allowed to be an error
    auto cmp = [&](const entry& a, const entry& b, bool& maybe_error) {
        maybe_error = false;
        if (&a == &b) return 0;
        if (a.dom != b.dom) return a.dom == first_dom ? -1 : 1;
        if (a.l != b.l) {
            for (size_t i = 0;; ++i) {
                if (i == a.l.size()) return -1;
                if (i == b.l.size()) return 1;
                if (a.l[i] != b.l[i]) return before(a.l[i], b.l[i]) ? -1 : 1;
            }
        }
        for (int i : a.l) if (!(mask[size_t(i)] & m_compare)) maybe_error = true;
        for (size_t i = 0; i < a.l.size(); ++i) {
            if (!(mask[size_t(a.l[i])] & m_compare)) return 2;
            if (a.v[i] != b.v[i]) return a.v[i] < b.v[i] ? -1 : 1;
        }
        return 0;
    };
    MC_STEP("masks " << mask[0] << mask[1] << mask[n - 1] << " priorities " << prio[0] << ' ' << prio[1] << ' ' << prio[n - 1] << " pool of " << pool.size());
    uint64_t h = 0;
    for (auto& a : pool) for (auto& b : pool) {
        mc::step_();
        auto what = [&] { return MC_STR("objects " << show(a.l) << " and " << show(b.l) << " of domains " << a.dom << " and " << b.dom); };
        bool e = eq(a, b);
        if (a.o->equals(*b.o) != e) mc::fail(MC_STR("equals of " << what() << " isn't " << e));
        if (dnmx_object_equals(a.o->to_c_hanlde(), b.o->to_c_hanlde()) != e) mc::fail("equals in C of " + what());
        bool me; int c = cmp(a, b, me);
        int got = 3;
        auto out = outcome_of([&] { got = sgn(a.o->compare(*b.o)); });
        auto cr = dnmx_object_compare(a.o->to_c_hanlde(), b.o->to_c_hanlde());
        if (c == 2 || !out.empty()) {
            if (!(c == 2 || me)) mc::fail("unexpected error of compare of " + what());
            if (out != "object_error") mc::fail(MC_STR("compare of " << what() << " didn't report an error: " << out << got));
            if (!cr.error) mc::fail("compare in C of " + what() + " didn't report an error");
        }
        else {
            if (got != c) mc::fail(MC_STR("compare of " << what() << ": got " << got << " expected " << c));
            if (cr.error || sgn(cr.result) != c) mc::fail("compare in C of " + what());
        }
        // types by themselves
        int tc = sgn(a.o->get_type().compare(b.o->get_type()));
        int te = a.dom == b.dom && a.l == b.l ? 0 : c;
        if (tc != te) mc::fail(MC_STR("compare of types of " << what() << ": got " << tc << " expected " << te));
        h = h * 31 + uint64_t(c + 2) * 2 + e;
    }
    mc::outcome(std::to_string(h));
    pool.clear();
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        using V = std::vector<int>;
        mc::section("three-mixins/all-functions", [] { all_pairs(3, false, {3, 2, 1, 0}, {0}, 3, false); });
        mc::section("three-mixins/all-priorities", [] { all_pairs(3, false, {3, 2}, mc::thorough ? V{0, -1, 1, INT32_MIN, INT32_MAX} : V{0, -1, INT32_MAX}, 3, false); });
        mc::section("three-mixins/canonical", [] { all_pairs(3, true, mc::thorough ? V{3, 2, 1, 0} : V{3, 2}, mc::thorough ? V{0, -1, INT32_MAX, INT32_MIN} : V{0, -1}, 3, true); });
        mc::section("four-mixins/all-priorities", [] { all_pairs(4, false, {2}, {0, 1}, size_t(pick(3, 4)), true); });
        mc::section("many-mixins/all-operations", [] { wide::object_histories(pick(129, 1025)); });
    });
}
