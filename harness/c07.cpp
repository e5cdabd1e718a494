// Feature resolution: the table of implementers of every feature of every type, next implementers and bidder sets, clashes.
#include "kit.hpp"
#include "wide.hpp"
#include <dnmx/type.h>
#include <algorithm>
using namespace kit;

namespace {
struct entry { int feature; int bid, prio; };
feature_info mkf(const char* n, bool clashes, void* def = nullptr) { feature_info f = dnmx_make_feature_info(); f.name = dnmx_sv::from_std(n); f.allow_clashes = clashes; f.default_payload = def; return f; }
char payloads[64]; // addresses serve as payloads

struct world {
    world_guard wg;
    res dres{"domain"};
    std::deque<feature_info> fs;
    std::deque<probe> ps;
    std::vector<std::vector<entry>> es;
    std::unique_ptr<domain> d;
    world(std::vector<std::vector<entry>> e, int nf, unsigned clashmask, unsigned defmask, bool feature_holes) : es(std::move(e)) {
        d = std::make_unique<domain>("d", domain_settings{}, 0, nullptr, allocator(&dres));
        for (int i = 0; i < nf; ++i) { static const char* nn[] = {"f0", "f1", "f2", "f3"}; fs.push_back(mkf(nn[i], clashmask >> i & 1, defmask >> i & 1 ? &payloads[40 + i] : nullptr)); }
        feature_info hole = mkf("hole", true);
        if (feature_holes) { d->register_feature(hole); d->register_feature(fs[size_t(nf) - 1]); d->unregister_feature(hole); }
        for (size_t m = 0; m < es.size(); ++m) {
            ps.emplace_back(std::string(1, char('a' + m)));
            for (auto& x : es[m]) ps.back().feature(fs[size_t(x.feature)], &payloads[m * 4 + size_t(x.feature)], x.bid, x.prio);
            d->register_mixin(ps.back().info);
        }
        for (auto& f : fs) if (f.id.i == dnmx_invalid_id) { if (mc::recording) MC_LOG("feature " << f.name.to_std() << " remains unregistered"); }
    }
    ~world() { d.reset(); }
    // the implementers of f in list l, best first
    struct impl { size_t idx; int mixin; entry e; };
    std::vector<impl> order(const std::vector<int>& l, int f) {
        std::vector<impl> r;
        for (size_t i = 0; i < l.size(); ++i) for (auto& x : es[size_t(l[i])]) if (x.feature == f) r.push_back({i, l[i], x});
        std::sort(r.begin(), r.end(), [](const impl& a, const impl& b) {
            if (a.e.bid != b.e.bid) return a.e.bid > b.e.bid;
            if (a.e.prio != b.e.prio) return a.e.prio < b.e.prio;
            return a.idx > b.idx;
        });
        return r;
    }
    void check_list(const std::vector<int>& l) {
        infos v; for (int i : l) v.push_back(&ps[size_t(i)].info);
        bool clash = false;
        for (size_t f = 0; f < fs.size(); ++f) {
            if (fs[f].allow_clashes) continue;
            auto o = order(l, int(f));
            for (size_t i = 0; i + 1 < o.size(); ++i) if (o[i].e.bid == o[i + 1].e.bid && o[i].e.prio == o[i + 1].e.prio) clash = true;
        }
        MC_STEP("request " << names(v));
        const type* t = nullptr;
        auto n0 = d->num_types(), q0 = d->num_type_queries();
        auto out = outcome_of([&] { t = &d->get_type(v); });
        MC_EQ(!out.empty(), clash, "request of " << names(v) << (clash ? " has a clash" : " has no clash") << ", outcome '" << out << "'");
        if (clash) { MC_CHECK(out == "type_error" || out == "feature_error" || out == "domain_error" || out == "dynamix_exception", "kind of error: " << out); MC_EQ(d->num_types(), n0, "types after a failed request"); MC_EQ(d->num_type_queries(), q0, "queries after a failed request"); return; }
        for (size_t f = 0; f < fs.size(); ++f) {
            auto o = order(l, int(f));
            auto e = t->ftable_at(fs[f].id);
            auto ec = dnmx_ftable_at(t, fs[f].id);
            MC_CHECK(e.begin == ec.begin && e.end == ec.end && e.top_bid_back == ec.top_bid_back, "C and C++ table access differ");
            std::string what = names(v) + " feature " + std::to_string(f);
            MC_EQ(bool(e), !o.empty(), what << " is implemented");
            MC_EQ(t->implements_strong(fs[f]), !o.empty(), what << " implements_strong(info)");
            MC_EQ(t->implements_strong(fs[f].id), !o.empty(), what << " implements_strong(id)");
            MC_EQ(t->implements_strong(fs[f].name.to_std()), !o.empty(), what << " implements_strong(name)");
            MC_EQ(t->implements(fs[f]), !o.empty() || fs[f].default_payload, what << " implements");
            MC_EQ(dnmx_type_implements_strong(t, &fs[f]), !o.empty(), what << " C implements_strong");
            MC_EQ(dnmx_type_implements_strong_by_name(t, fs[f].name), !o.empty(), what << " C implements_strong by name");
            MC_EQ(dnmx_type_implements(t, &fs[f]), !o.empty() || fs[f].default_payload, what << " C implements");
            if (!o.empty()) {
                MC_EQ(size_t(e.end - e.begin), o.size(), what << " number of implementers");
                size_t top = 1; while (top < o.size() && o[top].e.bid == o[0].e.bid) ++top;
                MC_EQ(size_t(e.top_bid_back - e.begin) + 1, top, what << " number of top bidders");
                for (size_t i = 0; i < o.size(); ++i) {
                    auto& p = e.begin[i];
                    MC_EQ(size_t(p.mixin_index), o[i].idx, what << " implementer " << i);
                    MC_CHECK(p.payload == &payloads[size_t(o[i].mixin) * 4 + f], what << " payload of implementer " << i);
                    MC_CHECK(p.data && p.data->info == &fs[f] && p.data->bid == o[i].e.bid && p.data->priority == o[i].e.prio, what << " data of implementer " << i);
                }
            }
            for (size_t m = 0; m < ps.size(); ++m) {
                size_t k = 0; while (k < o.size() && o[k].mixin != int(m)) ++k;
                auto n = t->find_next_implementer(fs[f], ps[m].info);
                auto w = what + " next of " + ps[m].name;
                if (k + 1 < o.size()) MC_CHECK(n == e.begin + k + 1, w << " implementer"); else MC_CHECK(!n, w << " implementer isn't there");
                auto s = t->find_next_bidder_set(fs[f], ps[m].info);
                size_t b = k; if (k < o.size()) while (b < o.size() && o[b].e.bid == o[k].e.bid) ++b;
                size_t z = b; while (z < o.size() && o[z].e.bid == o[b].e.bid) ++z;
                if (k < o.size() && b < o.size()) { MC_CHECK(s.begin() == e.begin + b && s.end() == e.begin + z, w << " bidder set"); }
                else MC_CHECK(s.empty(), w << " bidder set isn't there");
            }
        }
        MC_CHECK(!t->implements_strong("nothing"), "unknown name");
        MC_CHECK(!t->implements_strong(invalid_feature_id), "invalid id");
        MC_CHECK(!t->implements_strong(feature_id{7}), "id beyond the table");
        std::string k = names(v); for (size_t f = 0; f < fs.size(); ++f) { k += '/'; for (auto& x : order(l, int(f))) k += std::to_string(x.idx) + (x.e.bid == order(l, int(f))[0].e.bid ? "+" : "-"); }
        mc::outcome(k);
    }
    void check_all() {
        std::vector<int> p; for (size_t i = 0; i < ps.size(); ++i) p.push_back(int(i));
        std::set<std::vector<int>> done;
        do for (size_t k = 1; k <= p.size(); ++k) { std::vector<int> l(p.begin(), p.begin() + long(k)); if (done.insert(l).second) check_list(l); } while (std::next_permutation(p.begin(), p.end()));
    }
};

std::vector<entry> pick_entries(int f, const std::vector<int>& bids, const std::vector<int>& prios) {
    int c = mc::choose(1 + int(bids.size() * prios.size()));
    if (c == 0) return {};
    --c;
    return {{f, bids[size_t(c) / prios.size()], prios[size_t(c) % prios.size()]}};
}
// one feature, n mixins with all perks
void one(int n, std::vector<int> bids, std::vector<int> prios) {
    std::vector<std::vector<entry>> es; for (int i = 0; i < n; ++i) { es.push_back(pick_entries(0, bids, prios)); }
    unsigned cl = unsigned(mc::choose(2)), def = unsigned(mc::choose(2));
    if (mc::pruned()) return;
    for (int i = 0; i < n; ++i) MC_LOG("mixin " << char('a' + i) << (es[size_t(i)].empty() ? std::string(" doesn't implement") : MC_STR(" bid " << es[size_t(i)][0].bid << " priority " << es[size_t(i)][0].prio)));
    world w(es, 1, cl, def, false);
    w.check_all();
}
// several features in every subset and listing order, ids with holes
void several(int n, int nf) {
    std::vector<std::vector<entry>> es;
    for (int i = 0; i < n; ++i) {
        std::vector<entry> e;
        for (int f = 0; f < nf; ++f) { int c = mc::choose(3); if (c) e.push_back({f, c - 1, f == 0 ? i % 2 : 0}); }
        if (mc::flip()) std::reverse(e.begin(), e.end());
        es.push_back(e);
    }
    unsigned cl = mc::flip() ? 7u : 2u;
    bool holes = mc::flip();
    if (mc::pruned()) return;
    world w(es, nf, cl, 4, holes);
    w.check_all();
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("one-feature/three-mixins/all-perks", [] { if (mc::thorough) one(3, {-2, -1, 0, 1}, {-1, 0, 1, 2}); else one(3, {-1, 0, 1}, {-1, 0, 2}); });
        mc::section("one-feature/limits/all-perks", [] { one(3, {INT32_MIN, 0, INT32_MAX}, {INT32_MIN, INT32_MAX}); });
        mc::section("one-feature/four-mixins/all-perks", [] { if (mc::thorough) one(4, {-1, 0, 1}, {0, 1}); else one(4, {0, 1}, {0, 1, 2}); });
        mc::section("several-features/all-subsets", [] { several(pick(2, 3), 3); });
        mc::section("many-implementers", [] { wide::features(pick(65, 257)); });
    });
}
