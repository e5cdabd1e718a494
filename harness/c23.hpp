#pragma once
// Constructing from tuples (shared parts): all tuples of up to three elements of all kinds, as lvalues and rvalues, const and not.
#include "mc.hpp"
#include <dynamix/object.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/bits/make_from_tuple.hpp>
#include <dynamix/object_mutate_ops.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mixin_info_util.hpp>
#include <array>
#include <tuple>
#include <vector>
#include <cstring>

namespace c23 {
inline int g_copies, g_moves;
struct V { // a value
    int v; V(int v) : v(v) {} V(const V& o) : v(o.v) { ++g_copies; } V(V&& o) noexcept : v(o.v) { o.v = -1; ++g_moves; }
};
struct MO { // can only be moved
    int v; MO(int v) : v(v) {} MO(MO&& o) noexcept : v(o.v) { o.v = -1; ++g_moves; } MO(const MO&) MC_MOVE_ONLY_BODY
};
// what the constructor got
struct got { int type; const void* addr; int val; };
struct call { void* self; std::vector<got> args; };
inline std::vector<call> g_calls;
inline bool g_throw;
struct planned {};
enum ref { lref, clref, rref, crref };
inline const char* rname(int r) { static const char* n[] = {"&", "const &", "&&", "const &&"}; return n[r]; }
template <typename A> constexpr int ref_of = std::is_lvalue_reference_v<A&&> ? (std::is_const_v<std::remove_reference_t<A>> ? clref : lref) : (std::is_const_v<std::remove_reference_t<A>> ? crref : rref);
}
using namespace c23;
using dynamix::mixin_info;
struct target {
    char pad[24];
    target() { g_calls.push_back({this, {}}); init(); }
    target(const target&) = delete;
    template <typename A, typename... B, typename = std::enable_if_t<!std::is_same_v<std::decay_t<A>, target>>>
    target(A&& a, B&&... b) {
        g_calls.push_back({this, {got{ref_of<A>, &a, a.v}, got{ref_of<B>, &b, b.v}...}});
        init();
    }
    void init() { memset(pad, 0x5A, sizeof pad); if (g_throw) throw planned(); }
};
const mixin_info& _dynamix_get_mixin_info(const target*);
namespace c23 {
enum { a_lv, a_clv, a_rv, a_mo, a_crv, na };
template <int K> struct arg_t { V v; MO m; arg_t(int x) : v(x), m(x) {}
    decltype(auto) give() { if constexpr (K == a_lv) return (v); else if constexpr (K == a_clv) return std::as_const(v); else if constexpr (K == a_rv) return std::move(v); else if constexpr (K == a_mo) return std::move(m); else return std::move(std::as_const(v)); }
    const void* addr() const { return K == a_mo ? static_cast<const void*>(&m) : &v; }
};
void check_through(const std::vector<int>& kinds, const std::vector<const void*>& addrs, void (*op)(dynamix::domain&, dynamix::object&, void*), void* as);
mixin_info& tinfo();
template <int How, int... K> void through(int) {
    using namespace dynamix;
    using args = std::tuple<arg_t<K>...>;
    args as{20 + K...};
    std::vector<const void*> addrs; std::apply([&](auto&... x) { (addrs.push_back(x.addr()), ...); }, as);
    check_through({K...}, addrs, [](domain& d, object& o, void* p) {
        std::apply([&](auto&... x) {
            if constexpr (How == 0) mutate(o, add<target>(x.give()...));
            else if constexpr (How == 1) { const mixin_info* q[] = {&tinfo()}; mutate_to(o, d.get_type(q), mutate_to_ops::construct<target>(x.give()...)); }
            else { auto op = add<target>(x.give()...); mutate(o, op); } // kept in a variable first
        }, *static_cast<args*>(p));
    }, &as);
}
using tfn = void (*)(int);
inline std::vector<tfn> g_through[3];
template <int How, int... I> void add_through(std::integer_sequence<int, I...>) { (g_through[2].push_back(&through<How, I % na, I / na>), ...); }
template <int How, int... I> void add_one_through(std::integer_sequence<int, I...>) { (g_through[1].push_back(&through<How, I>), ...); }
void add_m0(); void add_m1(); void add_m2();
}
