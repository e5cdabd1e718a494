// Type identity: all histories of type requests (valid and invalid), collections, unregistrations, without mutation rules.
#include "kit.hpp"
#include "wide.hpp"
using namespace kit;
using pmut = std::unique_ptr<type_mutation>;

namespace {
struct world {
    world_guard wg;
    std::deque<probe> ps;
    probe unreg{"u"}, foreign{"f"};
    res dres{"domain"};
    std::unique_ptr<domain> d, other;
    std::map<infos, const type*> types; // model: existing types
    std::map<const type*, std::vector<std::unique_ptr<object>>> objs;
    world(int n, bool canonical) {
        for (int i = 0; i < n; ++i) ps.emplace_back(std::string(1, char('a' + i)));
        domain_settings st = {}; st.canonicalize_types = canonical;
        d = std::make_unique<domain>("d", st, 0, nullptr, allocator(&dres));
        other = std::make_unique<domain>("other");
        for (auto& p : ps) d->register_mixin(p.info);
        other->register_mixin(foreign.info);
    }
    ~world() { objs.clear(); d.reset(); other.reset(); }

    static bool invalid(const infos& l) {
        std::set<const mixin_info*> s;
        for (auto m : l) { if (!m->dom) return true; if (!s.insert(m).second) return true; if (m->name == std::string_view("f")) return true; }
        return false;
    }
    enum entry { by_span, by_mutation, by_base_mutation, entries };
    const type* request(const infos& l, int e, std::string& err) {
        const type* t = nullptr;
        err = outcome_of([&] {
            if (e == by_span) { t = &d->get_type(l); return; }
            if (e == by_mutation) { type_mutation m(*d); for (auto i : l) m.add(*i); t = &d->get_type(std::move(m)); return; }
            // start from some existing type which isn't the requested one
            const type* base = &d->get_empty_type();
            for (auto& x : types) if (x.first != l) { base = x.second; break; }
            type_mutation m(*base);
            for (auto i : type_mixins(*base)) m.remove(*i);
            for (auto i : l) m.add(*i);
            t = &d->get_type(std::move(m));
        });
        return t;
    }
    void check() {
        std::map<infos, const type*> seen;
        {
            domain_traverse tr(*d);
            tr.traverse_types([&](const type& t) {
                MC_CHECK(seen.emplace(type_mixins(t), &t).second, "two types with the same mixins " << names(type_mixins(t)));
            });
        }
        MC_EQ(d->num_types(), types.size(), "number of types");
        for (auto& x : types) {
            auto f = seen.find(x.first);
            MC_CHECK(f != seen.end(), "no type for " << names(x.first));
            MC_CHECK(f->second == x.second, "another type for " << names(x.first));
        }
        MC_EQ(seen.size(), types.size(), "number of traversed types");
    }
    std::string key(std::string k) {
        auto add = [&](const infos& l) { for (auto m : l) k += std::string(m->name.to_std()); k += ','; };
        for (auto& p : ps) k += p.info.registered() ? '1' : '0';
        for (auto& x : types) { add(x.first); k += char('0' + x.second->num_objects()); }
        k += '|';
        domain_traverse tr(*d);
        std::set<std::string> q;
        tr.traverse_type_queries([&](itlib::span<const mixin_info* const> s, const type& t) { std::string r; for (auto m : s) r += m ? std::string(m->name.to_std()) : "?"; r += '>'; for (auto m : t.mixins) r += std::string(m->name.to_std()); q.insert(r); });
        for (auto& s : q) { k += s; k += ';'; }
        return k;
    }
};

std::vector<infos> lists(world& w, int nvalid, int maxlen, bool bad) {
    std::vector<infos> r{{}};
    std::function<void(infos)> rec = [&](infos l) {
        if (int(l.size()) == maxlen) return;
        for (int i = 0; i < nvalid; ++i) {
            const mixin_info* m = &w.ps[size_t(i)].info;
            if (std::find(l.begin(), l.end(), m) != l.end()) continue;
            auto n = l; n.push_back(m); r.push_back(n); rec(n);
        }
    };
    rec({});
    if (bad) {
        const mixin_info *a = &w.ps[0].info, *b = &w.ps[1].info, *u = &w.unreg.info, *f = &w.foreign.info;
        for (infos l : std::initializer_list<infos>{{a, a}, {u}, {f}, {a, b, a}, {b, u}, {f, a}, {b, b, b}}) r.push_back(l);
    }
    return r;
}

void run(const char* tag, bool dedup, int depth, int n, int maxlen, bool canonical) {
    world w(n, canonical);
    auto ls = lists(w, n, maxlen, true);
    auto sorted = [&](infos l) { if (canonical) std::sort(l.begin(), l.end(), [](auto x, auto y) { return x->name.to_std() < y->name.to_std(); }); return l; };
    for (int i = 0; i < depth; ++i) {
        int nreq = int(ls.size()) * world::entries;
        // requests, gc, object of existing type / drop objects of the first type with objects, unregister/reregister mixin 0 or 1, foreign mutation
        int op = mc::choose(nreq + 6);
        if (mc::pruned()) return;
        if (op < nreq) {
            auto& l = ls[size_t(op / world::entries)];
            int e = op % world::entries;
            MC_STEP("request " << names(l) << " entry " << e);
            bool bad = world::invalid(l);
            std::string err;
            auto t = w.request(l, e, err);
            MC_EQ(!err.empty(), bad, "outcome of the request (" << err << ")");
            if (bad) { if (err != "type_error" && err != "domain_error") MC_CHECK(false, "kind of error " << err); }
            else {
                auto r = sorted(l);
                MC_CHECK(type_mixins(*t) == r, "request " << names(l) << " gave a type with " << names(type_mixins(*t)));
                MC_CHECK(&t->dom == w.d.get(), "domain of a type");
                if (r.empty()) MC_CHECK(t == &w.d->get_empty_type(), "empty request must give the empty type");
                else {
                    auto f = w.types.find(r);
                    if (f != w.types.end()) MC_CHECK(f->second == t, "second type for " << names(r));
                    else w.types[r] = t;
                }
            }
        }
        else switch (op - nreq) {
        case 0: {
            MC_STEP("collect types");
            w.d->garbage_collect_types();
            for (auto it = w.types.begin(); it != w.types.end();) { if (w.objs[it->second].empty()) { w.objs.erase(it->second); it = w.types.erase(it); } else ++it; }
        } break;
        case 1: {
            // hold the last existing type with an object
            const type* t = nullptr; for (auto& x : w.types) if (w.objs[x.second].empty()) t = x.second;
            if (!t) return;
            MC_STEP("create an object of " << names(type_mixins(*t)));
            w.objs[t].push_back(std::make_unique<object>(*t));
        } break;
        case 2: {
            for (auto& o : w.objs) if (!o.second.empty()) { MC_STEP("destroy an object of " << names(type_mixins(*o.first))); o.second.clear(); goto done; }
            return;
            done:;
        } break;
        case 3: case 4: {
            auto& m = w.ps[size_t(op - nreq - 3)].info;
            if (m.registered()) {
                for (auto& x : w.types) if (!w.objs[x.second].empty() && x.second->has(m)) return; // precondition
                MC_STEP("unregister " << m.name.to_std());
                w.d->unregister_mixin(m);
                for (auto it = w.types.begin(); it != w.types.end();) { if (std::find(it->first.begin(), it->first.end(), &m) != it->first.end()) { w.objs.erase(it->second); it = w.types.erase(it); } else ++it; }
            }
            else { MC_STEP("register " << m.name.to_std()); w.d->register_mixin(m); }
        } break;
        case 5: {
            MC_STEP("request with a mutation of another domain");
            auto e = outcome_of([&] { type_mutation m(*w.other); w.d->get_type(std::move(m)); });
            MC_CHECK(e == "domain_error" || e == "type_error", "request with a foreign mutation: " << e);
            e = outcome_of([&] { w.d->unregister_mixin(w.foreign.info); });
            MC_EQ(e, std::string("domain_error"), "unregistration of a foreign mixin");
        } break;
        }
        w.check();
        auto k = w.key(tag + std::string(canonical ? "c" : "-"));
        mc::outcome(k);
        if (dedup && !mc::visit(k, depth - 1 - i)) break;
    }
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("two-mixins/all-states", [] { run("2", true, pick(14, 20), 2, 2, false); });
        mc::section("three-mixins/all-states", [] { run("3", true, pick(4, 6), 3, 3, false); });
        mc::section("three-mixins/all-sequences", [] { run("3s", false, pick(3, 4), 3, 3, false); });
        mc::section("canonical/all-states", [] { run("2c", true, pick(14, 20), 2, 2, true); });
        mc::section("long-lists", [] { wide::types(pick(257, 1025)); });
        mc::section("big-ids", [] { wide::types_of_big_ids(); });
    });
}
