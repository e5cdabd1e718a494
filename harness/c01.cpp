// Registry of mixins, features and type classes: all sequences of (un)registrations against a slot-array model.
#include "kit.hpp"
#include "wide.hpp"
using namespace kit;

struct dom_settings { bool dup; };

namespace {
template <typename Info> struct slots {
    std::vector<Info*> v;
    int find_free() { for (size_t i = 0; i < v.size(); ++i) if (!v[i]) return int(i); v.push_back(nullptr); return int(v.size()) - 1; }
    Info* by_name(std::string_view n) const { for (auto i : v) if (i && i->name == n) return i; return nullptr; }
    Info* by_id(size_t i) const { return i < v.size() ? v[i] : nullptr; }
    bool has(Info* p) const { for (auto i : v) if (i == p) return true; return false; }
    std::string key(Info* base) const { std::string k; for (auto i : v) k += char(i ? 'a' + (i - base) : '.'); return k; }
};
const std::string_view NAMES[] = {"a", "b", "a", "", "ab"};
template <typename I> void set_name(I& i, std::string_view n) { i.name = dnmx_sv::from_std(n); }

// generic: ops = {register x, unregister x} x infos, in two domains
template <typename Info, typename Mk, typename Reg, typename Unreg, typename ById, typename ByName, typename Id, typename Trav>
void run(const char* what, bool dedup, int depth, Mk mk, Reg reg, Unreg unreg, ById by_id, ByName by_name, Id idof, Trav trav) {
    world_guard wg;
    domain_settings st = {};
    bool dup = mc::flip();
    st.allow_duplicate_feature_names = st.allow_duplicate_mixin_names = dup;
    constexpr int N = 5, D = 2;
    Info infos_[N];
    for (int i = 0; i < N; ++i) { infos_[i] = mk(); set_name(infos_[i], NAMES[i]); }
    domain d0("d0", st), d1("d1", st);
    domain* doms[D] = {&d0, &d1};
    slots<Info> model[D];
    int home[N]; for (auto& h : home) h = -1;
    int lastid[N] = {};
    for (int i = 0; i < depth; ++i) {
        // domain 1 is used only by infos 0 and 1: enough for everything foreign
        int op = mc::choose(N * 2 + 4);
        if (mc::pruned()) return;
        int dom, x; bool r;
        if (op < N * 2) { dom = 0; x = op % N; r = op < N; } else { dom = 1; x = (op - N * 2) % 2; r = op - N * 2 < 2; }
        MC_STEP((r ? "register " : "unregister ") << what << " #" << x << " '" << NAMES[x] << "' in domain " << dom);
        auto& m = model[dom];
        if (r) {
            bool bad = home[x] >= 0 || (!dup && (NAMES[x].empty() || m.by_name(NAMES[x])));
            auto out = outcome_of([&] { reg(*doms[dom], infos_[x]); });
            MC_EQ(!out.empty(), bad, "registration of " << what << " outcome (" << out << ")");
            if (bad) MC_EQ(out, std::string("domain_error"), "kind of error");
            if (!bad) { int s = m.find_free(); m.v[size_t(s)] = &infos_[x]; home[x] = dom; lastid[x] = s; }
        }
        else {
            bool bad = home[x] != dom;
            auto out = outcome_of([&] { unreg(*doms[dom], infos_[x]); });
            MC_EQ(!out.empty(), bad, "unregistration of " << what << " outcome (" << out << ")");
            if (!bad) { m.v[size_t(lastid[x])] = nullptr; home[x] = -1; }
        }
        // full comparison
        for (int k = 0; k < N; ++k) {
            if (home[k] < 0) MC_EQ(idof(infos_[k]), int64_t(dnmx_invalid_id), "id of an unregistered " << what);
            else MC_EQ(idof(infos_[k]), int64_t(lastid[k]), "id of a registered " << what << " #" << k);
        }
        for (int k = 0; k < D; ++k) {
            for (uint32_t id = 0; id < 8; ++id) MC_CHECK(by_id(*doms[k], id) == model[k].by_id(id), "lookup of " << what << " by id " << id);
            MC_CHECK(by_id(*doms[k], dnmx_invalid_id) == nullptr, "lookup by the invalid id");
            for (auto n : {"a", "b", "ab", "c", "A"}) MC_CHECK(by_name(*doms[k], n) == model[k].by_name(n), "lookup of " << what << " by name " << n);
            std::vector<const Info*> seen, expect;
            trav(*doms[k], seen);
            for (auto p : model[k].v) if (p) expect.push_back(p);
            MC_CHECK(seen == expect, "traversal of registered " << what << "s");
        }
        std::string key = std::string(what) + char('0' + dup) + model[0].key(infos_) + "|" + model[1].key(infos_);
        mc::outcome(key);
        if (dedup && !mc::visit(key, depth - 1 - i)) break;
    }
    for (int k = 0; k < N; ++k) if (home[k] >= 0) unreg(*doms[home[k]], infos_[k]);
}

void mixins(bool dedup, int depth) {
    run<mixin_info>("mixin", dedup, depth, [] { return dnmx_make_mixin_info(); },
        [](domain& d, mixin_info& i) { d.register_mixin(i); MC_CHECK(i.dom == &*d.to_c_hanlde(), "domain of a registered mixin"); },
        [](domain& d, mixin_info& i) { d.unregister_mixin(i); MC_CHECK(i.dom == nullptr, "domain of an unregistered mixin"); },
        [](domain& d, uint32_t id) { return d.get_mixin_info(mixin_id{id}); },
        [](domain& d, std::string_view n) { return d.get_mixin_info(n); },
        [](mixin_info& i) { return int64_t(i.id.i); },
        [](domain& d, std::vector<const mixin_info*>& v) { domain_traverse(d).traverse_mixins([&](const mixin_info& i) { v.push_back(&i); }); });
}
void features(bool dedup, int depth) {
    run<feature_info>("feature", dedup, depth, [] { return dnmx_make_feature_info(); },
        [](domain& d, feature_info& i) { d.register_feature(i); },
        [](domain& d, feature_info& i) { d.unregister_feature(i); },
        [](domain& d, uint32_t id) { return d.get_feature_info(feature_id{id}); },
        [](domain& d, std::string_view n) { return d.get_feature_info(n); },
        [](feature_info& i) { return int64_t(i.id.i); },
        [](domain& d, std::vector<const feature_info*>& v) { domain_traverse(d).traverse_features([&](const feature_info& i) { v.push_back(&i); }); });
}

// type classes have no ids, may be registered in many domains, need a name and a func
void type_classes(bool dedup, int depth) {
    world_guard wg;
    domain d("d");
    static constexpr auto ft = [](dnmx_type_handle) noexcept { return true; };
    static constexpr auto ff = [](dnmx_type_handle) noexcept { return false; };
    constexpr int N = 6;
    type_class tc[N] = {
        {dnmx_make_sv_lit("a"), ft}, {dnmx_make_sv_lit("b"), ff}, {dnmx_make_sv_lit("a"), ff}, {dnmx_make_sv_lit(""), ft}, {dnmx_make_sv_lit("n"), nullptr}, {dnmx_make_sv_lit("ab"), ft}};
    std::vector<const type_class*> model; // registered, by slot
    for (int i = 0; i < depth; ++i) {
        int op = mc::choose(2 * N);
        if (mc::pruned()) return;
        int x = op % N; bool r = op < N;
        MC_STEP((r ? "register " : "unregister ") << "type class #" << x << " '" << tc[x].name.to_std() << "'");
        auto by_name = [&](std::string_view n) -> const type_class* { for (auto c : model) if (c && c->name == n) return c; return nullptr; };
        if (r) {
            bool bad = tc[x].name.empty() || !tc[x].matches || by_name(tc[x].name.to_std());
            auto out = outcome_of([&] { d.register_type_class(tc[x]); });
            MC_EQ(!out.empty(), bad, "registration of type class outcome (" << out << ")");
            if (!bad) {
                size_t s = 0; while (s < model.size() && model[s]) ++s;
                if (s == model.size()) model.push_back(nullptr);
                model[s] = &tc[x];
            }
        }
        else {
            d.unregister_type_class(tc[x]); // unregistering a type class which isn't registered is a noop
            for (auto& c : model) if (c == &tc[x]) c = nullptr;
        }
        const mixin_info* none[1]; (void)none;
        auto& et = d.get_empty_type();
        for (auto n : {"a", "b", "ab", "n", "zz", ""}) {
            auto e = by_name(n);
            MC_CHECK(d.get_type_class(n) == e, "lookup of a type class by name '" << n << "'");
            bool is = false;
            auto out = outcome_of([&] { is = et.is_of(n); });
            MC_EQ(out.empty(), !!e, "is_of by name outcome");
            if (e) MC_EQ(is, e->matches(&et), "is_of by name result");
        }
        std::vector<const type_class*> seen, expect;
        domain_traverse(d).traverse_type_classes([&](const type_class& c) { seen.push_back(&c); });
        for (auto c : model) if (c) expect.push_back(c);
        MC_CHECK(std::multiset<const type_class*>(seen.begin(), seen.end()) == std::multiset<const type_class*>(expect.begin(), expect.end()), "traversal of type classes");
        std::string key = "tc"; for (auto c : model) key += char(c ? 'a' + (c - tc) : '.');
        mc::outcome(key);
        if (dedup && !mc::visit(key, depth - 1 - i)) return;
    }
}

// mixins which bring features along: implicit registration of features, in all orders, with name clashes among the features
void mixin_features(bool dedup, int depth) {
    world_guard wg;
    domain d("d");
    feature_info f[3] = {dnmx_make_feature_info(), dnmx_make_feature_info(), dnmx_make_feature_info()};
    set_name(f[0], "f"); set_name(f[1], "g"); set_name(f[2], "f"); // #2 clashes with #0
    mixin_info m[4] = {dnmx_make_mixin_info(), dnmx_make_mixin_info(), dnmx_make_mixin_info(), dnmx_make_mixin_info()};
    set_name(m[0], "m0"); set_name(m[1], "m1"); set_name(m[2], "m2"); set_name(m[3], "m0"); // #3 clashes with #0
    feature_for_mixin fm0[] = {{&f[0], nullptr, 0, 0}}, fm1[] = {{&f[1], nullptr, 0, 0}, {&f[0], nullptr, 0, 0}}, fm2[] = {{&f[1], nullptr, 0, 0}, {&f[2], nullptr, 0, 0}}, fm3[] = {{&f[1], nullptr, 0, 0}};
    m[0].set_features(fm0); m[1].set_features(fm1); m[2].set_features(fm2); m[3].set_features(fm3);
    slots<feature_info> fs; slots<mixin_info> ms;
    for (int i = 0; i < depth; ++i) {
        int op = mc::choose(8 + 6);
        if (mc::pruned()) return;
        auto regf = [&](feature_info* p) -> bool { if (fs.by_name(p->name.to_std())) return false; int s = fs.find_free(); fs.v[size_t(s)] = p; return true; };
        if (op < 4) {
            MC_STEP("register mixin #" << op);
            bool ok = !ms.has(&m[op]); // (features are checked first but all features of a registered mixin are registered unless explicitly unregistered)
            auto was = fs;
            bool feat_ok = true;
            for (auto& x : m[op].features_span()) { auto p = const_cast<feature_info*>(x.info); if (!fs.has(p) && !regf(p)) { feat_ok = false; break; } }
            if (!feat_ok) ok = false;
            if (ok && ms.by_name(m[op].name.to_std())) ok = false;
            auto out = outcome_of([&] { d.register_mixin(m[op]); });
            MC_EQ(out.empty(), ok, "registration of a mixin with features (" << out << ")");
            if (ok) { int s = ms.find_free(); ms.v[size_t(s)] = &m[op]; }
        }
        else if (op < 8) {
            int x = op - 4;
            MC_STEP("unregister mixin #" << x);
            bool ok = ms.has(&m[x]);
            MC_EQ(!throws([&] { d.unregister_mixin(m[x]); }), ok, "unregistration of a mixin");
            if (ok) for (auto& p : ms.v) if (p == &m[x]) p = nullptr;
        }
        else if (op < 11) {
            int x = op - 8;
            MC_STEP("register feature #" << x);
            bool ok = !fs.has(&f[x]) && regf(&f[x]);
            MC_EQ(!throws([&] { d.register_feature(f[x]); }), ok, "registration of a feature");
        }
        else {
            int x = op - 11;
            MC_STEP("unregister feature #" << x);
            bool ok = fs.has(&f[x]);
            MC_EQ(!throws([&] { d.unregister_feature(f[x]); }), ok, "unregistration of a feature");
            if (ok) for (auto& p : fs.v) if (p == &f[x]) p = nullptr;
        }
        for (uint32_t id = 0; id < 6; ++id) {
            MC_CHECK(d.get_mixin_info(mixin_id{id}) == ms.by_id(id), "mixin by id " << id);
            MC_CHECK(d.get_feature_info(feature_id{id}) == fs.by_id(id), "feature by id " << id);
            if (auto p = fs.by_id(id)) MC_EQ(p->id.i, id, "feature's own id");
            if (auto p = ms.by_id(id)) MC_EQ(p->id.i, id, "mixin's own id");
        }
        for (auto n : {"m0", "m1", "m2"}) MC_CHECK(d.get_mixin_info(n) == ms.by_name(n), "mixin by name " << n);
        for (auto n : {"f", "g", "h"}) MC_CHECK(d.get_feature_info(n) == fs.by_name(n), "feature by name " << n);
        std::string key = "mf" + fs.key(f) + "|" + ms.key(m);
        mc::outcome(key);
        if (dedup && !mc::visit(key, depth - 1 - i)) return;
    }
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("mixins/all-states", [] { mixins(true, pick(9, 12)); });
        mc::section("mixins/all-sequences", [] { mixins(false, pick(4, 6)); });
        mc::section("features/all-states", [] { features(true, pick(9, 12)); });
        mc::section("features/all-sequences", [] { features(false, pick(4, 6)); });
        mc::section("type-classes/all-states", [] { type_classes(true, pick(9, 12)); });
        mc::section("type-classes/all-sequences", [] { type_classes(false, pick(4, 6)); });
        mc::section("mixins-with-features/all-states", [] { mixin_features(true, pick(8, 14)); });
        mc::section("mixins-with-features/all-sequences", [] { mixin_features(false, pick(4, 6)); });
        mc::section("many-mixins", [] { wide::registry<wide::reg_mixin>(pick(129, 513)); });
        mc::section("many-features", [] { wide::registry<wide::reg_feature>(pick(129, 513)); });
        mc::section("big-ids", [] { if (mc::flip()) wide::big_ids<wide::reg_mixin>(); else wide::big_ids<wide::reg_feature>(); });
    });
}
