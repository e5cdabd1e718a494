// Concurrent type requests: all schedules, against all sequential orders of the requests.
#include "conc_types.hpp"
using namespace ct;

namespace {
const list QS[] = {{A}, {A, B}, {B, A}, {C}, {A, A}, {}, {B, X}};
constexpr int NQ = 7;
// a program of a thread is a number; the threads are interchangeable, so their programs are in ascending order
std::vector<op> program(int p, int len, int nq, int entries) {
    std::vector<op> r;
    for (int i = 0; i < len; ++i) { int k = p % (nq * entries); p /= nq * entries; r.push_back(get(QS[k % nq], k / nq)); }
    return r;
}
// rules which are in force from the beginning
void config(world& w, int c) {
    if (c == 2) { w.setup(rule_op(o_add, r_add_b_if_a)); w.setup(rule_op(o_add, r_c_to_a)); }
    if (c == 3) { w.setup(rule_op(o_add, r_add_x_if_b)); w.setup(rule_op(o_add, r_fail_if_c)); }
    if (c == 4) w.setup(rule_op(o_add, r_rotate));
}
void body(int threads, int len, int nq, int entries, int confs, int bound) {
    int c = mc::choose(confs);
    std::vector<std::vector<op>> prog;
    int num = 1, p = 0; for (int i = 0; i < len; ++i) num *= nq * entries;
    for (int t = 0; t < threads; ++t) { p += mc::choose(num - p); prog.push_back(program(p, len, nq, entries)); }
    sched::preemption_bound = bound;
    world w(c == 1, true);
    config(w, c);
    w.concurrent(prog);
}
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
    sched::setup();
    // threads x requests of each
    mc::section("requests/2x1/all-schedules", [] { body(2, 1, NQ, 3, 5, -1); });
    mc::section("requests/2x2/all-schedules", [] { body(2, 2, NQ, 1, mc::pick(3, 5), -1); });
    mc::section("requests/3x1/all-schedules", [] { body(3, 1, NQ, 1, mc::pick(3, 5), -1); });
    mc::section("requests/2x3/all-schedules", [] { body(2, 3, mc::pick(2, 4), 1, mc::pick(3, 5), -1); });
    mc::section("requests/4x1/all-schedules", [] { body(4, 1, mc::pick(2, 4), 1, 3, -1); });
    if (mc::thorough) mc::section("requests/3x2/all-schedules", [] { body(3, 2, 3, 1, 3, -1); });
    });
}
