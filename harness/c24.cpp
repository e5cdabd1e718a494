// Small value types: settings builders, perks, ids and rounding. All sequences of calls and all values of the stated grids.
#include "kit.hpp"
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/mixin_info_data_literals.hpp>
#include <dynamix/alloc_util.hpp>
#include <dynamix/mixin_index.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dnmx/domain.h>
using namespace kit;
using namespace dynamix::util;

namespace {
// ---------------------------------------------------------------- settings
const char* sname[] = {"canonicalize_types", "allow_duplicate_feature_names", "allow_duplicate_mixin_names"};
struct model { bool v[3] = {false, false, false}; };
void check_settings(const domain_settings& s, const model& m, const char* what) {
    MC_EQ(s.canonicalize_types, m.v[0], "canonicalize_types " << what);
    MC_EQ(s.allow_duplicate_feature_names, m.v[1], "allow_duplicate_feature_names " << what);
    MC_EQ(s.allow_duplicate_mixin_names, m.v[2], "allow_duplicate_mixin_names " << what);
}
// what a domain with these settings does
void check_domain(const domain& d_, const model& m) {
    domain& d = const_cast<domain&>(d_);
    check_settings(d.settings(), m, "of the domain");
    check_settings(dnmx_get_domain_settings(d.to_c_hanlde()), m, "of the domain in C");
    feature_info f[2] = {dnmx_make_feature_info(), dnmx_make_feature_info()};
    mixin_info x[2] = {dnmx_make_mixin_info(), dnmx_make_mixin_info()}, dup = dnmx_make_mixin_info();
    f[0].name = f[1].name = dnmx_make_sv_lit("f");
    x[0].name = dnmx_make_sv_lit("z"); x[1].name = dnmx_make_sv_lit("a"); dup.name = dnmx_make_sv_lit("a");
    for (auto* i : {&x[0], &x[1], &dup}) i->init = [](const mixin_info*, void*) noexcept { return dnmx_error_return_t(0); };
    d.register_feature(f[0]);
    MC_EQ(!throws([&] { d.register_feature(f[1]); }), m.v[1], "duplicate feature names are accepted");
    d.register_mixin(x[0]); d.register_mixin(x[1]);
    const mixin_info* za[] = {&x[0], &x[1]}; const mixin_info* az[] = {&x[1], &x[0]};
    const type *p = &d.get_type(za), *q = &d.get_type(az);
    MC_EQ(p == q, m.v[0], "types which differ in the order of mixins only are the same");
    MC_CHECK(q->mixins[0] == &x[1] && (p->mixins[0] == &x[1]) == m.v[0], "the order of mixins");
    MC_EQ(!throws([&] { d.register_mixin(dup); }), m.v[2], "duplicate mixin names are accepted");
    for (auto* i : {&x[0], &x[1], &dup}) if (i->id != invalid_mixin_id) d.unregister_mixin(*i);
    for (auto& i : f) if (i.id != invalid_feature_id) d.unregister_feature(i);
}
void builder(int len) {
    world_guard wg;
    int n = mc::choose(len + 1); std::vector<int> seq;
    for (int i = 0; i < n; ++i) seq.push_back(mc::choose(11));
    if (mc::pruned()) return;
    {
        model m; domain_settings_builder b;
        check_settings(b, m, "at first");
        for (int op : seq) {
            int s = op / 3, a = op % 3;
            if (op < 9) {
                MC_STEP(sname[s] << (a == 0 ? "()" : a == 1 ? "(true)" : "(false)"));
                domain_settings_builder* r;
                switch (s) {
                case 0: r = a == 0 ? &b.canonicalize_types() : &b.canonicalize_types(a == 1); break;
                case 1: r = a == 0 ? &b.allow_duplicate_feature_names() : &b.allow_duplicate_feature_names(a == 1); break;
                default: r = a == 0 ? &b.allow_duplicate_mixin_names() : &b.allow_duplicate_mixin_names(a == 1); break;
                }
                MC_CHECK(r == &b, "builders return themselves");
                m.v[s] = a != 2;
            }
            else if (op == 9) { MC_STEP("copy"); auto c = b; c.canonicalize_types(!m.v[0]).allow_duplicate_feature_names(!m.v[1]).allow_duplicate_mixin_names(!m.v[2]); check_settings(b, m, "after changes of a copy"); }
            else { MC_STEP("start with given settings"); domain_settings s = b; b = domain_settings_builder{s}; }
            const auto& cb = b;
            check_settings(cb, m, "of the builder");
            check_settings(b.settings, m, "in the builder");
        }
        domain d("d", b);
        check_domain(d, m);
        mc::outcome(MC_STR(m.v[0] << m.v[1] << m.v[2]));
    }
}
void raw_settings() {
    world_guard wg;
    model m; for (bool& b : m.v) b = mc::flip();
    int how = mc::choose(3);
    if (mc::pruned()) return;
    MC_STEP("a domain with settings " << m.v[0] << m.v[1] << m.v[2] << " created in way " << how);
    domain_settings s = {}; check_settings(s, {}, "by default");
    s.canonicalize_types = m.v[0]; s.allow_duplicate_feature_names = m.v[1]; s.allow_duplicate_mixin_names = m.v[2];
    auto plain = [](domain& d, std::string_view name) { auto h = d.to_c_hanlde(); MC_CHECK(d.name() == name && dnmx_get_domain_name(h).to_std() == name, "name of a domain"); MC_CHECK(d.user_data == 0 && d.context == nullptr && dnmx_get_domain_user_data(h) == 0 && !dnmx_get_domain_context(h), "no user data and context by default"); };
    if (how == 0) { domain d("d", s); check_domain(d, m); plain(d, "d"); }
    else if (how == 1) { auto h = dnmx_create_domain(dnmx_make_sv_lit("d"), s, 17, &m); check_domain(*domain::from_c_handle(h), m); MC_CHECK(dnmx_get_domain_context(h) == &m && dnmx_get_domain_user_data(h) == 17, "user data and context"); dnmx_destroy_domain(h); }
    else { domain d; check_domain(d, {}); plain(d, ""); }
}
// ---------------------------------------------------------------- perks
const int32_t vals[] = {0, 1, -1, 2, 7, -7, 1000, -1000, 65535, -65536, 2147483647, -2147483647, INT32_MIN};
constexpr int nvals = 12; // without the one which can't be negated
struct perks_m { bool b = false, p = false; int32_t bid = 0, prio = 0; };
void check_perks(const builder_perks& p, const perks_m& m, const char* what) {
    MC_EQ(p.bid.has_value(), m.b, "bid given " << what); MC_EQ(p.priority.has_value(), m.p, "priority given " << what);
    if (m.b) MC_EQ(*p.bid, m.bid, "bid " << what);
    if (m.p) MC_EQ(*p.priority, m.prio, "priority " << what);
}
std::pair<builder_perks, perks_m> literal(int i) {
    using namespace builder_literals;
    switch (i) {
    case 0: return {0_bid, {true, false, 0, 0}}; case 1: return {0_prio, {false, true, 0, 0}};
    case 2: return {1_bid, {true, false, 1, 0}}; case 3: return {1_prio, {false, true, 0, 1}};
    case 4: return {-1_bid, {true, false, -1, 0}}; case 5: return {-1_prio, {false, true, 0, -1}};
    case 6: return {12345_bid, {true, false, 12345, 0}}; case 7: return {12345_prio, {false, true, 0, 12345}};
    case 8: return {2147483647_bid, {true, false, INT32_MAX, 0}}; case 9: return {2147483647_prio, {false, true, 0, INT32_MAX}};
    case 10: return {-2147483647_bid, {true, false, -INT32_MAX, 0}}; case 11: return {-2147483647_prio, {false, true, 0, -INT32_MAX}};
    case 12: return {0x10_bid, {true, false, 16, 0}}; case 13: return {- -5_prio, {false, true, 0, 5}};
    default: return {builder_perks{}, {}};
    }
}
std::pair<builder_perks, perks_m> pick_perks(int n) { // by function
    using namespace builder_literals;
    int k = mc::choose(4), b = k == 1 || k == 3 ? mc::choose(n) : 0, p = k == 2 || k == 3 ? mc::choose(n) : 0;
    switch (k) {
    case 0: return {builder_perks{}, {}};
    case 1: return {feature_bid(vals[b]), {true, false, vals[b], 0}};
    case 2: return {order_priority(vals[p]), {false, true, 0, vals[p]}};
    default: return {feature_bid_priority(vals[b], vals[p]), {true, true, vals[b], vals[p]}};
    }
}
void perks_values() {
    auto [p, m] = pick_perks(nvals + 1); int neg = mc::choose(3);
    if (mc::pruned()) return;
    MC_STEP("perks " << (m.b ? std::to_string(m.bid) : "-") << "/" << (m.p ? std::to_string(m.prio) : "-") << " negated " << neg << " times");
    check_perks(p, m, "as given");
    if ((m.b && m.bid == INT32_MIN) || (m.p && m.prio == INT32_MIN)) return;
    for (int i = 0; i < neg; ++i) {
        const auto before = p; auto q = -p;
        check_perks(before, m, "of the negated");
        check_perks(p, m, "of the original");
        p = q; m.bid = -m.bid; m.prio = -m.prio;
        check_perks(p, m, "of the result");
    }
}
void perks_literals() {
    int i = mc::choose(15);
    if (mc::pruned()) return;
    MC_STEP("literal " << i);
    auto [p, m] = literal(i);
    check_perks(p, m, "of a literal");
}
struct Mx {};
dnmx_error_return_t rule_func(dnmx_type_mutation_handle, uintptr_t) { return 0; }
// two perks in the two orders, given when a feature is implemented and (one) for a rule
void perks_combined() {
    auto [pa, ma] = pick_perks(4); auto [pb, mb] = pick_perks(4); int how = mc::choose(4);
    if (mc::pruned()) return;
    MC_STEP("a: " << (ma.b ? std::to_string(ma.bid) : "-") << "/" << (ma.p ? std::to_string(ma.prio) : "-") << " b: " << (mb.b ? std::to_string(mb.bid) : "-") << "/" << (mb.p ? std::to_string(mb.prio) : "-") << " given to " << how);
    world_guard wg;
    {
        feature_info f = dnmx_make_feature_info(); f.name = dnmx_make_sv_lit("f");
        mixin_info_data d; mixin_info_data_builder<Mx> b(d, dnmx_make_sv_lit("m"));
        static int payload; int32_t bid = 0, prio = 0; bool has_bid = true;
        switch (how) {
        case 0: b.implements_with_payload(f, fwd_any(payload), pa, pb); break;
        case 1: b.implements_by(f, payload, pa, pb); break;
        case 2: b.implements_with(f, 5, pa, pb); break;
        case 3: has_bid = false; break;
        }
        if (has_bid) {
            bid = ma.b ? ma.bid : mb.b ? mb.bid : 0; prio = ma.p ? ma.prio : mb.p ? mb.prio : 0;
            MC_EQ(d.info.num_features, 1u, "features"); MC_CHECK(d.info.features[0].info == &f, "the feature");
            MC_EQ(d.info.features[0].bid, bid, "bid of the implementation"); MC_EQ(d.info.features[0].priority, prio, "priority of the implementation");
        }
        else {
            b.adds_mutation_rule(rule_func, 3, pa); b.adds_mutation_rule("named", rule_func, 3, pb);
            MC_EQ(d.mutation_rule_infos.size(), size_t(2), "rules");
            MC_EQ(d.mutation_rule_infos[0]->order_priority, ma.p ? ma.prio : 0, "priority of the rule"); MC_EQ(d.mutation_rule_infos[1]->order_priority, mb.p ? mb.prio : 0, "priority of the named rule");
        }
    }
}
// ---------------------------------------------------------------- ids
const uint32_t idv[] = {0, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffff0000u, 0xfffffffeu, 0xffffffffu};
template <typename Id> void ids(Id invalid) {
    constexpr int n = sizeof idv / sizeof *idv;
    int i = mc::choose(n), j = mc::choose(n);
    if (mc::pruned()) return;
    MC_STEP("ids " << idv[i] << " and " << idv[j]);
    Id a{idv[i]}, b{idv[j]};
    MC_EQ(a.i, idv[i], "value");
    MC_EQ(a == b, i == j, "=="); MC_EQ(a != b, i != j, "!="); MC_EQ(b == a, i == j, "== backwards"); MC_EQ(b != a, i != j, "!= backwards");
    MC_EQ(a == invalid, idv[i] == 0xffffffffu, "invalid");
    Id c = a; c = b; MC_CHECK(c == b && a.i == idv[i], "assignment");
}
void id_defaults() {
    int n = mc::choose(4); bool with = mc::flip();
    if (mc::pruned()) return;
    MC_STEP("defaults " << n << with);
    MC_CHECK(invalid_mixin_index == dnmx_invalid_mixin_index && invalid_mixin_index == 0xffffffffu, "invalid index");
    auto mi = dnmx_make_mixin_info(); auto fi = dnmx_make_feature_info();
    MC_CHECK(mi.id == invalid_mixin_id && fi.id == invalid_feature_id, "descriptions have no ids at first");
    { mixin_info m2; feature_info f2; if (with) { m2 = dnmx_make_mixin_info(); f2 = dnmx_make_feature_info(); MC_CHECK(m2.id == invalid_mixin_id && f2.id == invalid_feature_id, "copies of new descriptions"); } }
    { mixin_info_data d; feature_info_data fd; MC_CHECK(d.info.id == invalid_mixin_id && fd.info.id == invalid_feature_id, "built descriptions have no ids at first"); }
    world_guard wg;
    {
        domain d("d");
        mixin_info ms[4]; feature_info fs[4]; const char* names[] = {"a", "b", "c", "d"};
        for (int i = 0; i < 4; ++i) { ms[i] = dnmx_make_mixin_info(); ms[i].name = dnmx_make_sv_len(names[i], 1); fs[i] = dnmx_make_feature_info(); fs[i].name = dnmx_make_sv_len(names[i], 1); }
        for (int i = 0; i < n; ++i) { d.register_mixin(ms[i]); d.register_feature(fs[i]); }
        for (int i = 0; i < 4; ++i) { MC_EQ(ms[i].id != invalid_mixin_id, i < n, "registered have valid ids"); MC_EQ(fs[i].id != invalid_feature_id, i < n, "registered have valid ids"); }
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) MC_CHECK(ms[i].id != ms[j].id && fs[i].id != fs[j].id, "ids are different");
        for (int i = 0; i < n; ++i) { d.unregister_mixin(ms[i]); d.unregister_feature(fs[i]); MC_CHECK(ms[i].id == invalid_mixin_id && fs[i].id == invalid_feature_id, "ids are invalid afterwards"); }
    }
}
// ---------------------------------------------------------------- rounding
void rounding(bool dense) {
    static const std::vector<uint32_t> ns = [] { std::vector<uint32_t> r; for (uint32_t i = 1; i <= 130; ++i) r.push_back(i); for (int k = 8; k < 32; ++k) for (int e = -1; e <= 1; ++e) r.push_back((1u << k) + uint32_t(e)); r.push_back(0xfffffffeu); r.push_back(0xffffffffu); return r; }();
    uint32_t n = ns[size_t(mc::choose(int(ns.size())))];
    uint64_t base;
    if (dense) base = 0;
    else { // around multiples of n, powers of two and the limit
        int k = mc::choose(40);
        if (k < 32) base = uint64_t(1) << k; else base = k < 36 ? uint64_t(n) * uint64_t(k - 31) : uint64_t(0xffffffffu) / n * n - uint64_t(n) * uint64_t(k - 36);
        base = base < 70 ? 0 : base - 70;
    }
    int chunk = dense ? mc::choose(mc::pick(8, 64)) : 0;
    if (mc::pruned()) return;
    MC_STEP("multiples of " << n << " from " << base + uint64_t(chunk) * 256);
    for (uint64_t s = base + uint64_t(chunk) * 256, e = s + (dense ? 256 : 141); s < e; ++s) {
        uint64_t want = (s + n - 1) / n * n;
        if (s > 0xffffffffu || want > 0xffffffffu) continue; // the result doesn't fit
        MC_EQ(uint64_t(next_multiple(uint32_t(s), n)), want, "the next multiple of " << n << " from " << s);
    }
}
static_assert(next_multiple(17, 8) == 24 && next_multiple(0, 3) == 0 && next_multiple(0xffffffffu, 1) == 0xffffffffu);
}
int main(int argc, char** argv) {
    mc::section("settings/builder", [] { builder(mc::pick(4, 5)); });
    mc::section("settings/domains", raw_settings);
    mc::section("perks/values", perks_values);
    mc::section("perks/literals", perks_literals);
    mc::section("perks/combined", perks_combined);
    mc::section("ids/mixin", [] { ids<mixin_id>(invalid_mixin_id); });
    mc::section("ids/feature", [] { ids<feature_id>(invalid_feature_id); });
    mc::section("ids/defaults", id_defaults);
    mc::section("rounding/dense", [] { rounding(true); });
    mc::section("rounding/around", [] { rounding(false); });
    return mc::main_(argc, argv, [] { setup_default(); });
}
