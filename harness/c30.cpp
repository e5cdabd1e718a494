// Concurrent requests with rule changes, collections and unregistrations: all schedules, against all sequential orders.
#include "conc_types.hpp"
using namespace ct;

namespace {
const list QS[] = {{A}, {B}, {C}, {A, B}, {B, A}, {A, B, X}};
std::vector<op> alphabet(bool gc) {
    std::vector<op> r;
    for (auto& q : QS) r.push_back(get(q));
    r.push_back(rule_op(o_add, r_add_b_if_a)); r.push_back(rule_op(o_remove, r_add_b_if_a));
    r.push_back(rule_op(o_add, r_c_to_a)); r.push_back(rule_op(o_remove, r_c_to_a));
    r.push_back(simple(o_types)); r.push_back(simple(o_queries)); r.push_back(simple(o_rules));
    if (gc) r.push_back(simple(o_gc));
    return r;
}
std::vector<op> program(const std::vector<op>& al, int p, int len) {
    std::vector<op> r;
    for (int i = 0; i < len; ++i) { r.push_back(al[size_t(p) % al.size()]); p /= int(al.size()); }
    return r;
}
// what has happened before the threads start
void config(world& w, int c, bool gc) {
    if (c & 1) w.setup(rule_op(o_add, r_add_b_if_a));
    if (c & 2) { for (auto& q : QS) w.setup(get(q)); } // all types exist and all requests are stored
    if (c & 4) { w.setup(get({A})); w.setup(get({A, B})); w.setup(rule_op(o_add, r_add_x_if_b)); w.setup(rule_op(o_remove, r_add_x_if_b)); } // types exist, no requests are stored
    if (gc && (c & 8)) w.keep({A, B});
    if (c & 16) { w.setup(get({C})); w.setup(get({A, C})); w.setup(get({X, C})); w.setup(get({A})); }
}
void body(std::vector<op> al, std::vector<int> lens, const std::vector<int>& confs, bool gc, int bound = -1) {
    int c = confs[size_t(mc::choose(int(confs.size())))];
    std::vector<std::vector<op>> prog;
    int p = 0;
    for (size_t t = 0; t < lens.size(); ++t) {
        int num = 1; for (int i = 0; i < lens[t]; ++i) num *= int(al.size());
        if (t == 0 || lens[t] != lens[t - 1]) p = 0;
        p += mc::choose(num - p);
        prog.push_back(program(al, p, lens[t]));
    }
    sched::preemption_bound = bound;
    world w(false, !gc);
    config(w, c, gc);
    w.concurrent(prog);
}
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
    sched::setup();
    mc::section("rules/2x2/all-schedules", [] { body(alphabet(false), {2, 2}, mc::thorough ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{4}, false); });
    mc::section("rules/3x1/all-schedules", [] { body(alphabet(false), {1, 1, 1}, {0, 1, 2, 4}, false); });
    mc::section("collection/2x2/all-schedules", [] { body(alphabet(true), {2, 2}, mc::thorough ? std::vector<int>{0, 1, 2, 4, 8, 10, 12} : std::vector<int>{12}, true); });
    mc::section("collection/3x1/all-schedules", [] { body(alphabet(true), {1, 1, 1}, {0, 2, 4, 12}, true); });
    // one thread unregisters and registers a mixin which the others don't request
    mc::section("unregistration/all-schedules", [] {
        static const std::vector<std::vector<op>> first{{simple(o_unreg)}, {simple(o_unreg), simple(o_reg)}, {simple(o_unreg), simple(o_types)}, {simple(o_gc), simple(o_unreg)}};
        std::vector<op> al{get({A}), get({B}), get({A, B}, 1), rule_op(o_add, r_add_b_if_a), simple(o_types), simple(o_queries), simple(o_gc)};
        int f = mc::choose(4), n = 1 + mc::choose(2), len = n == 1 ? 2 : 1;
        std::vector<std::vector<op>> prog{first[size_t(f)]};
        int p = 0, num = len == 1 ? 7 : 49;
        for (int i = 0; i < n; ++i) { p += mc::choose(num - p); prog.push_back(program(al, p, len)); }
        sched::preemption_bound = -1;
        world w(false, false);
        config(w, 16, true);
        w.concurrent(prog);
    });
    if (mc::thorough) mc::section("collection/3x2/all-schedules", [] { body({get({A}), rule_op(o_add, r_add_b_if_a), rule_op(o_remove, r_add_b_if_a), simple(o_gc)}, {2, 2, 2}, {0, 4}, true); });
    });
}
