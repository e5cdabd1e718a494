// Objects over four mixins with their reference model (shared by several harnesses).
#pragma once
#include "kit.hpp"
#include <dynamix/mutate.hpp>
#include <dnmx/object.h>
#include <algorithm>
using namespace kit;

namespace {
using list = std::vector<int>;
std::string show(const list& l) { std::string s; for (int i : l) s += char('a' + i); return "[" + s + "]"; }
bool has(const list& l, int m) { return std::find(l.begin(), l.end(), m) != l.end(); }
struct mobj { bool exists = false; list l; std::map<int, int> v; };

struct world {
    world_guard wg;
    res dres{"domain"}, ores{"objects"};
    mixalloc ma{"mixin"};
    std::deque<probe> ps;
    std::unique_ptr<domain> d;
    std::vector<std::unique_ptr<object>> o;
    std::vector<mobj> m;
    int next = 100;
    explicit world(int n, bool canonical = false, bool no_destroy = false) : o(size_t(n)), m(size_t(n)) {
        domain_settings s{}; s.canonicalize_types = canonical;
        d = std::make_unique<domain>("d", s, 0, nullptr, allocator(&dres));
        ps.emplace_back("a", 8, 8); ps.emplace_back("b", 12, 4).external(); ps.emplace_back("c", 3, 1).uses(ma); ps.emplace_back("d", 32, 32);
        if (no_destroy) { ps[0].trivial(); ps[1].trivial(); ps[2].trivial(); }
        for (auto& p : ps) d->register_mixin(p.info);
    }
    ~world() { o.clear(); d.reset(); ma.r.check_empty("end"); }
    const mixin_info& mi(int i) { return ps[size_t(i)].info; }
    const type& ty(const list& l) { infos v; for (int i : l) v.push_back(&mi(i)); return d->get_type(v); }
    // reference effect of changing the type
    void to(mobj& x, const list& l) {
        for (auto it = x.v.begin(); it != x.v.end();) if (has(l, it->first)) ++it; else it = x.v.erase(it);
        for (int i : l) if (!x.v.count(i)) x.v[i] = next++;
        x.l = l; x.exists = true;
    }
    void check() {
        block_set b; size_t n = 0;
        for (size_t k = 0; k < o.size(); ++k) {
            MC_EQ(bool(o[k]), m[k].exists, "object exists");
            if (!o[k]) continue;
            auto& x = *o[k]; auto h = x.to_c_hanlde(); auto& r = m[k];
            MC_CHECK(x.get_type() == ty(r.l), "type of object " << k << ": " << names(type_mixins(x.get_type())) << " expected " << show(r.l));
            MC_CHECK(&x.get_domain() == d.get() && dnmx_object_get_domain(h) == d->to_c_hanlde(), "domain");
            MC_CHECK(dnmx_object_get_type(h) == &x.get_type(), "type in C");
            MC_EQ(size_t(x.num_mixins()), r.l.size(), "number of mixins");
            MC_EQ(x.empty(), r.l.empty(), "empty"); MC_EQ(dnmx_object_is_empty(h), r.l.empty(), "empty in C");
            check_layout(x, ores, b);
            for (int i = 0; i < int(ps.size()); ++i) {
                auto nm = mi(i).name.to_std();
                bool in = has(r.l, i);
                MC_EQ(x.has(mi(i)), in, "has mixin by info"); MC_EQ(x.has(mi(i).id), in, "by id"); MC_EQ(x.has(nm), in, "by name");
                MC_EQ(dnmx_object_has(h, &mi(i)), in, "has in C"); MC_EQ(dnmx_object_has_by_name(h, mi(i).name), in, "by name in C");
                auto p = x.get(mi(i));
                MC_EQ(bool(p), in, "get mixin");
                const object& cx = x;
                MC_CHECK(x.get(mi(i).id) == p && x.get(nm) == p && cx.get(mi(i)) == p && cx.get(mi(i).id) == p && cx.get(nm) == p, "getters differ");
                MC_CHECK(dnmx_object_get_mut(h, &mi(i)) == p && dnmx_object_get(h, &mi(i)) == p && dnmx_object_get_mut_by_name(h, mi(i).name) == p && dnmx_object_get_by_name(h, mi(i).name) == p, "C getters differ");
                if (!in) continue;
                ++n;
                MC_EQ(probe::alive(&mi(i), p, "check").val, r.v.at(i), "value of mixin " << nm << " of object " << k);
            }
            for (size_t i = 0; i <= r.l.size() + 1; ++i) {
                auto p = x.get_at(mixin_index_t(i));
                const object& cx = x;
                MC_CHECK(cx.get_at(mixin_index_t(i)) == p && dnmx_object_get_mut_at(h, mixin_index_t(i)) == p && dnmx_object_get_at(h, mixin_index_t(i)) == p, "get_at differ");
                if (i < r.l.size()) MC_CHECK(p && p == x.get(mi(r.l[i])), "mixin at index " << i); else MC_CHECK(!p, "mixin at an index beyond the end");
            }
            MC_CHECK(!x.get_at(invalid_mixin_index) && !x.get(invalid_mixin_id) && !x.get("nothing") && !x.has("a "), "queries for what isn't there");
        }
        MC_EQ(n, T().live.size(), "live mixins");
        MC_EQ(b.blocks.size(), ores.live.size() + ma.r.live.size(), "blocks in use");
        MC_EQ(T().next_val, next, "number of default initializations");
    }
    std::string key() {
        std::map<int, int> ren; ren[-1] = -1;
        std::string k;
        for (auto& x : m) { k += x.exists ? "O" : "-"; for (int i : x.l) { int v = x.v[i]; if (!ren.count(v)) { int c = int(ren.size()); ren[v] = c; } k += char('a' + i); k += std::to_string(ren[v]); } k += '|'; }
        return k;
    }
};

}
