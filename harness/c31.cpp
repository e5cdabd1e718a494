// Concurrent registration, unregistration and lookup: all schedules, against all sequential orders.
#include "sched.hpp"
#include <algorithm>
using namespace kit;

namespace {
// things: per thread t: mixin M_t (all named "m", with the common feature F), mixin N_t (own name, with feature G_t),
// feature G_t (all named "g"), type class T_t (all named "t"); common: feature F ("f"), feature H ("h")
constexpr int MT = 3;
enum what { reg_m, unreg_m, reg_n, unreg_n, reg_f, unreg_f, reg_g, unreg_g, reg_t, unreg_t, find_m, find_n, find_m0, find_m1, find_f, find_g, find_f0, find_t, n_what };
const char* wname(int w) { static const char* n[] = {"register M", "unregister M", "register N", "unregister N", "register F", "unregister F", "register G", "unregister G", "register T", "unregister T", "find mixin m", "find mixin n", "find mixin #0", "find mixin #1", "find feature f", "find feature g", "find feature #0", "find type class t"}; return n[w]; }
struct op { int w; std::string str() const { return wname(w); } };

struct model {
    bool dup = false;
    std::vector<int> mixins, features, tcs; // slots: -1 - free
    // mixins: 10 + t - M_t, 20 + t - N_t; features: 1 - F, 10 + t - G_t; type classes: t
    static int name(int x) { return x >= 20 ? x : x >= 10 ? 10 : x; } // equal names - equal values
    static int find(const std::vector<int>& s, int x) { for (size_t i = 0; i < s.size(); ++i) if (s[i] == x) return int(i); return -1; }
    int add(std::vector<int>& s, int x, bool unique) {
        if (find(s, x) >= 0) return -1;
        if (unique) for (int y : s) if (y >= 0 && name(y) == name(x)) return -1;
        for (size_t i = 0; i < s.size(); ++i) if (s[i] < 0) { s[i] = x; return int(i); }
        s.push_back(x); return int(s.size()) - 1;
    }
    static std::string ids(int i) { return i < 0 ? "error" : "#" + std::to_string(i); }
    static std::string by_name(const std::vector<int>& s, int n) { for (int y : s) if (y >= 0 && name(y) == n) return std::to_string(y); return "none"; }
    static std::string by_id(const std::vector<int>& s, size_t i) { return i < s.size() && s[i] >= 0 ? std::to_string(s[i]) : "none"; }
    std::string reg_mixin(int x, int feature) {
        if (find(features, feature) < 0 && add(features, feature, !dup) < 0) return "error";
        return ids(add(mixins, x, !dup));
    }
    static std::string del(std::vector<int>& s, int x) { int i = find(s, x); if (i < 0) return "error"; s[size_t(i)] = -1; return "ok"; }
    std::string run(const op& o, int t) {
        switch (o.w) {
        case reg_m: return reg_mixin(10 + t, 1);
        case unreg_m: return del(mixins, 10 + t);
        case reg_n: return reg_mixin(20 + t, 10 + t);
        case unreg_n: return del(mixins, 20 + t);
        case reg_f: return add(features, 1, !dup) < 0 ? "error" : "ok"; // (its id may have changed again when we look)
        case unreg_f: return del(features, 1);
        case reg_g: return ids(add(features, 10 + t, !dup));
        case unreg_g: return del(features, 10 + t);
        case reg_t: { for (int y : tcs) if (y >= 0) return "error"; for (auto& y : tcs) if (y < 0) { y = t; return "ok"; } tcs.push_back(t); return "ok"; }
        case unreg_t: del(tcs, t); return "ok";
        case find_m: return by_name(mixins, 10);
        case find_n: return by_name(mixins, 20);
        case find_m0: return by_id(mixins, 0);
        case find_m1: return by_id(mixins, 1);
        case find_f: return by_name(features, 1);
        case find_g: return by_name(features, 10);
        case find_f0: return by_id(features, 0);
        case find_t: for (int y : tcs) if (y >= 0) return std::to_string(y); return "none";
        }
        return "?";
    }
    std::string state() const {
        std::string r = "mixins"; for (size_t i = 0; i < mixins.size(); ++i) if (mixins[i] >= 0) r += " #" + std::to_string(i) + "=" + std::to_string(mixins[i]);
        r += " features"; for (size_t i = 0; i < features.size(); ++i) if (features[i] >= 0) r += " #" + std::to_string(i) + "=" + std::to_string(features[i]);
        r += " type classes"; for (int y : tcs) if (y >= 0) r += " " + std::to_string(y);
        return r;
    }
};
using hist = sched::history<model, op>;

struct world {
    mixin_info M[MT], N[MT];
    feature_info F, G[MT];
    type_class T[MT];
    std::vector<feature_for_mixin> mf, nf[MT];
    std::unique_ptr<domain> d;
    model m;
    long blocks;
    explicit world(bool dup) : blocks(sched::mem_blocks()) {
        m.dup = dup;
        F = dnmx_make_feature_info(); F.name = dnmx_make_sv_lit("f");
        mf.push_back({&F, nullptr, 0, 0});
        static const char* nn[] = {"n0", "n1", "n2"};
        for (int i = 0; i < MT; ++i) {
            G[i] = dnmx_make_feature_info(); G[i].name = dnmx_make_sv_lit("g");
            nf[i].push_back({&G[i], nullptr, 0, 0});
            M[i] = dnmx_make_mixin_info(); M[i].name = dnmx_make_sv_lit("m"); M[i].set_size_alignment(8, 8); M[i].set_features(mf);
            N[i] = dnmx_make_mixin_info(); N[i].name = dnmx_make_sv_len(nn[i], 2); N[i].set_size_alignment(8, 8); N[i].set_features(nf[i]);
            T[i].name = dnmx_make_sv_lit("t"); T[i].matches = [](dnmx_type_handle) noexcept { return true; };
        }
        domain_settings st = {}; st.allow_duplicate_mixin_names = dup; st.allow_duplicate_feature_names = dup;
        d = std::make_unique<domain>("d", st);
    }
    ~world() { d.reset(); MC_EQ(sched::mem_blocks(), blocks, "memory blocks not returned by the domain"); }
    std::string mix(const mixin_info* p) const { if (!p) return "none"; for (int i = 0; i < MT; ++i) { if (p == &M[i]) return std::to_string(10 + i); if (p == &N[i]) return std::to_string(20 + i); } return "garbage"; }
    std::string fea(const feature_info* p) const { if (!p) return "none"; if (p == &F) return "1"; for (int i = 0; i < MT; ++i) if (p == &G[i]) return std::to_string(10 + i); return "garbage"; }
    std::string run(const op& o, int t) {
        auto e = [&](auto f) { auto r = outcome_of(f); return r.empty() ? std::string("ok") : r == "domain_error" ? std::string("error") : r; };
        auto idof = [&](auto f, auto& i) { auto r = e(f); return r == "ok" ? "#" + std::to_string(i.id.i) : r; };
        switch (o.w) {
        case reg_m: return idof([&] { d->register_mixin(M[t]); }, M[t]);
        case unreg_m: return e([&] { d->unregister_mixin(M[t]); });
        case reg_n: return idof([&] { d->register_mixin(N[t]); }, N[t]);
        case unreg_n: return e([&] { d->unregister_mixin(N[t]); });
        case reg_f: return e([&] { d->register_feature(F); });
        case unreg_f: return e([&] { d->unregister_feature(F); });
        case reg_g: return idof([&] { d->register_feature(G[t]); }, G[t]);
        case unreg_g: return e([&] { d->unregister_feature(G[t]); });
        case reg_t: return e([&] { d->register_type_class(T[t]); });
        case unreg_t: d->unregister_type_class(T[t]); return "ok";
        case find_m: return mix(d->get_mixin_info("m"));
        case find_n: return mix(d->get_mixin_info("n0"));
        case find_m0: return mix(d->get_mixin_info(mixin_id{0}));
        case find_m1: return mix(d->get_mixin_info(mixin_id{1}));
        case find_f: return fea(d->get_feature_info("f"));
        case find_g: return fea(d->get_feature_info("g"));
        case find_f0: return fea(d->get_feature_info(feature_id{0}));
        case find_t: { auto p = d->get_type_class("t"); if (!p) return "none"; for (int i = 0; i < MT; ++i) if (p == &T[i]) return std::to_string(i); return "garbage"; }
        }
        return "?";
    }
    std::string state() const {
        std::string r = "mixins";
        domain_traverse tr(*d);
        std::map<uint32_t, std::string> ms, fs;
        auto put = [](auto& m, uint32_t id, std::string v) { if (!m.emplace(id, v).second) mc::fail("two with the same id: " + m[id] + " and " + v); };
        tr.traverse_mixins([&](const mixin_info& i) { put(ms, i.id.i, mix(&i)); if (i.dom != d->to_c_hanlde()) mc::fail("the domain of a registered mixin"); });
        tr.traverse_features([&](const feature_info& i) { put(fs, i.id.i, fea(&i)); });
        for (auto& x : ms) r += " #" + std::to_string(x.first) + "=" + x.second;
        r += " features"; for (auto& x : fs) r += " #" + std::to_string(x.first) + "=" + x.second;
        r += " type classes"; tr.traverse_type_classes([&](const type_class& t) { r += " " + std::to_string(&t - T); });
        for (auto* a : {M, N}) for (int i = 0; i < MT; ++i) { bool in = ms.count(a[i].id.i) && ms[a[i].id.i] == mix(&a[i]); if (!in && (a[i].id != invalid_mixin_id || a[i].dom)) mc::fail("an unregistered mixin has an id or a domain"); }
        return r;
    }
    void setup(int w, int t) { op o{w}; auto r = run(o, t); auto e = m.run(o, t); MC_EQ(r, e, "setup " << o.str()); }
    void concurrent(const std::vector<std::vector<op>>& prog) {
        hist h(int(prog.size()));
        for (size_t t = 0; t < prog.size(); ++t) for (auto& o : prog[t]) { h.ops[t].push_back({int(t), o, {}, 0, 0}); MC_LOG("thread " << t << ": " << o.str()); }
        sched::run(int(prog.size()), [&](int t) {
            for (auto& i : h.ops[size_t(t)]) {
                mc::step_();
                i.begin = sched::tick(); i.result = run(i.op, t); i.end = sched::tick();
            }
        });
        if (mc::pruned()) return;
        auto st = state();
        MC_LOG("history" << h.str() << " => " << st);
        if (!h.linearizable(m, [](model& m, const op& o, int t) { return m.run(o, t); }, [](const model& m) { return m.state(); }, st))
            mc::fail("no order of the operations explains what was observed: " + m.state() + h.str() + " => " + st);
        std::string oc; for (auto& t : h.ops) for (auto& i : t) oc += i.op.str() + i.result + ";"; mc::outcome(oc + st);
    }
};
const int MIX[] = {reg_m, unreg_m, reg_n, unreg_n, unreg_f, reg_g, find_m, find_n, find_m0, find_m1, find_f, find_g};
const int FEA[] = {reg_f, unreg_f, reg_g, unreg_g, reg_n, reg_m, find_f, find_g, find_f0};
const int TCS[] = {reg_t, unreg_t, find_t};
template <size_t K>
void body(const int (&al)[K], int threads, int len, int confs) {
    int c = mc::choose(confs);
    std::vector<std::vector<op>> prog;
    for (int t = 0; t < threads; ++t) { prog.emplace_back(); for (int i = 0; i < len; ++i) prog.back().push_back({al[mc::choose(int(K))]}); }
    sched::preemption_bound = -1;
    world w(c & 1);
    if (c & 2) { w.setup(reg_m, 0); w.setup(reg_n, 1); w.setup(reg_t, 1); }
    if (c & 4) { w.setup(reg_n, 1); w.setup(reg_m, 1); w.setup(unreg_n, 1); w.setup(reg_g, 2); }
    w.concurrent(prog);
}
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
    sched::setup();
    mc::section("mixins/2x2/all-schedules", [] { body(MIX, 2, 2, 3); });
    mc::section("mixins/3x1/all-schedules", [] { body(MIX, 3, 1, 6); });
    mc::section("features/2x2/all-schedules", [] { body(FEA, 2, 2, mc::pick(3, 6)); });
    mc::section("features/3x1/all-schedules", [] { body(FEA, 3, 1, 6); });
    mc::section("type-classes/2x3/all-schedules", [] { body(TCS, 2, 3, 1); });
    mc::section("type-classes/3x2/all-schedules", [] { body(TCS, 3, 2, 1); });
    if (mc::thorough) mc::section("mixins/2x3/all-schedules", [] { body(MIX, 2, 3, 1); });
    });
}
