// The registry of rules of the compatibility layer, used by several threads: all schedules, against all sequential orders.
#include "sched.hpp"
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/mutation_rule.hpp>
#include <dynamix/type_mutation.hpp>
#include <algorithm>
#include <map>
#include <set>
using namespace kit;
namespace v1 = dynamix::v1compat;

// the domain of the compatibility layer lives as long as the program: its memory must come from the scheduler's resource too
namespace { struct init_res { init_res() { sched::setup(); } }; init_res g_init __attribute__((init_priority(150))); }
struct a {}; struct b {}; struct c {};
DYNAMIX_V1_DEFINE_MIXIN(a, v1::none); DYNAMIX_V1_DEFINE_MIXIN(b, v1::none); DYNAMIX_V1_DEFINE_MIXIN(c, v1::none);

namespace {
const mixin_info& mi(int k) { return k == 0 ? _dynamix_get_mixin_info((a*)nullptr) : k == 1 ? _dynamix_get_mixin_info((b*)nullptr) : _dynamix_get_mixin_info((c*)nullptr); }
struct rule final : v1::mutation_rule { // objects with a have the k-th mixin too
    int k;
    explicit rule(int k) : k(k) {} ~rule() { k = -1; }
    void apply_to(type_mutation& m) override { int i = k; MC_CHECK(i > 0, "a destroyed rule is applied"); if (m.has(mi(0))) m.add_if_lacking(mi(i)); }
};
enum what { add_b, add_c, take_own, take_first, take_unknown, request, object_ };
const uint32_t UNKNOWN = 1000;
struct op {
    int w; uint32_t id = 0; // id: which was given or used
    std::string str() const { static const char* n[] = {"add b", "add c", "remove own", "remove first", "remove unknown", "get {a}", "new object with a"}; return n[w] + (w < take_unknown ? " (" + std::to_string(id) + ")" : ""); }
};
struct model {
    std::map<uint32_t, int> in; // rules by id
    std::string types() const { std::set<int> s; for (auto& i : in) s.insert(i.second); std::string r = "a"; for (int k : s) r += char('a' + k); return r; }
    std::string state() const { std::string r; for (auto& i : in) r += std::to_string(i.first) + ":" + char('a' + i.second) + " "; return r + types(); }
    std::string run(const op& o) {
        switch (o.w) {
        case add_b: case add_c: return in.insert({o.id, o.w == add_b ? 1 : 2}).second ? "added" : "the id is in use";
        case take_own: case take_first: case take_unknown: { auto i = in.find(o.id); if (i == in.end()) return "nothing"; std::string r(1, char('a' + i->second)); in.erase(i); return r; }
        default: return types();
        }
    }
};
using hist = sched::history<model, op>;
struct world {
    dynamix::domain& d = v1::domain::instance();
    model m;
    std::vector<uint32_t> own[4];
    uint32_t first = 0;
    std::string run(op& o, int t) {
        switch (o.w) {
        case add_b: case add_c: o.id = v1::add_mutation_rule(new rule(o.w == add_b ? 1 : 2)); own[t].push_back(o.id); return "added";
        case take_own: o.id = own[t].back(); own[t].pop_back(); return take(o.id);
        case take_first: o.id = first; return take(o.id);
        case take_unknown: o.id = UNKNOWN; return take(o.id);
        case request: {
            const mixin_info* q[] = {&mi(0)};
            auto& ty = d.get_type(itlib::span<const mixin_info* const>(q, 1));
            std::string r; for (auto i : ty.mixins) r += i->name.to_std();
            return r; }
        default: {
            v1::object x; v1::mutate(x).add<a>();
            std::string r; for (auto i : x.get_type().mixins) r += i->name.to_std();
            return r; }
        }
    }
    static std::string take(uint32_t id) {
        auto r = v1::remove_mutation_rule(id);
        if (!r) return "nothing";
        auto k = static_cast<rule*>(r.get())->k;
        MC_CHECK(r.use_count() == 1, "the registry doesn't keep the rule");
        return std::string(1, char('a' + k));
    }
    std::string end() { // removes everything
        op q{request}; auto ty = run(q, 0); std::string s;
        for (uint32_t id = 0; id < 12; ++id) { auto r = take(id); if (r != "nothing") s += std::to_string(id) + ":" + r + " "; }
        d.garbage_collect_types();
        return s + ty;
    }
    void concurrent(const std::vector<std::vector<op>>& prog) {
        hist h(int(prog.size()));
        for (size_t t = 0; t < prog.size(); ++t) for (auto& o : prog[t]) { h.ops[t].push_back({int(t), o, {}, 0, 0}); MC_LOG("thread " << t << ": " << o.str()); }
        sched::run(int(prog.size()), [&](int t) {
            for (auto& i : h.ops[size_t(t)]) { mc::step_(); i.begin = sched::tick(); i.result = run(i.op, t); i.end = sched::tick(); }
        });
        auto st = end();
        if (mc::pruned()) return;
        MC_LOG("history" << h.str() << " => " << st);
        if (!h.linearizable(m, [](model& m, const op& o, int) { return m.run(o); }, [](const model& m) { return m.state(); }, st))
            mc::fail("no order of the operations explains what was observed: " + m.state() + h.str() + " => " + st);
        std::string oc; for (auto& t : h.ops) for (auto& i : t) oc += i.op.str() + i.result + ";"; mc::outcome(oc + st);
    }
};
void body(std::vector<int> lens, bool objects, int bound = -1) {
    int c = mc::choose(4); // rules which are there before
    std::vector<std::vector<op>> prog; int prev = -1; size_t plen = 0;
    for (int len : lens) {
        int num = 1; for (int i = 0; i < len; ++i) num *= objects ? 7 : 6;
        int from = plen == size_t(len) && prev > 0 ? prev : 0; plen = size_t(len);
        int p = from + mc::choose(num - from); prev = p;
        prog.emplace_back(); int have = 0; bool ok = true;
        for (int i = 0; i < len; ++i) { int w = p % (objects ? 7 : 6); p /= objects ? 7 : 6; prog.back().push_back({w}); if (w <= add_c) ++have; if (w == take_own && have-- == 0) ok = false; }
        if (mc::pruned() || !ok) return;
    }
    sched::preemption_bound = bound;
    world w;
    if (c & 1) { w.first = v1::add_mutation_rule(new rule(1)); w.m.in[w.first] = 1; }
    if (c & 2) { auto x = v1::add_mutation_rule(new rule(2)); w.m.in[x] = 2; op q{request}; w.run(q, 0); if (!(c & 1)) w.first = x; }
    w.concurrent(prog);
}
}
int main(int argc, char** argv) {
    { world w; op q{request}; for (int i = 0; i < 8; ++i) v1::add_mutation_rule(new rule(1 + i % 2)); w.run(q, 0); w.end(); } // everything which is made once and kept is there
    return mc::main_(argc, argv, [] {
    mc::section("registry/2x1/all-schedules", [] { body({1, 1}, true); });
    mc::section("registry/2x2/all-schedules", [] { body({2, 2}, true); });
    mc::section("registry/2+1+1/all-schedules", [] { body({2, 1, 1}, false); });
    mc::section("registry/3x1/all-schedules", [] { body({1, 1, 1}, true); });
    if (mc::thorough) mc::section("registry/2x3/all-schedules", [] { body({3, 3}, true); });
    });
}
