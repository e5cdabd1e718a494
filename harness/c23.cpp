// Constructing from tuples: all tuples of up to three elements of all kinds, as lvalues and rvalues, const and not.
#include "kit.hpp"
#include "c23.hpp"
using namespace kit;
namespace {
// kinds of elements
enum { k_val, k_cval, k_mo, k_lref, k_clref, k_rref, k_crref, nk };
template <int K> struct el;
template <> struct el<k_val> { using t = V; }; template <> struct el<k_cval> { using t = const V; }; template <> struct el<k_mo> { using t = MO; };
template <> struct el<k_lref> { using t = V&; }; template <> struct el<k_clref> { using t = const V&; }; template <> struct el<k_rref> { using t = V&&; }; template <> struct el<k_crref> { using t = const MO&&; };
// how a tuple is given
enum { lv, clv, rv, crv };
// what the constructor has to get for an element: as the tuple element in a tuple of this category
int expected(int k, int cat) {
    switch (k) {
    case k_val: case k_mo: return cat == lv ? lref : cat == clv ? clref : cat == rv ? rref : crref;
    case k_cval: return cat == lv || cat == clv ? clref : crref;
    case k_lref: return lref; // references stay references to the same object, whatever the tuple is
    case k_clref: return clref;
    case k_rref: return cat == lv || cat == clv ? lref : rref;
    default: return cat == lv || cat == clv ? clref : crref;
    }
}
struct memory { // the target's memory with guards
    alignas(16) unsigned char b[16 + sizeof(target) + 16];
    memory() { memset(b, 0xC7, sizeof b); }
    void* p() { return b + 16; }
    void check() { for (size_t i = 0; i < 16; ++i) MC_CHECK(b[i] == 0xC7 && b[16 + sizeof(target) + i] == 0xC7, "memory around the target"); }
};
template <int K> decltype(auto) make_el(std::vector<std::shared_ptr<void>>& keep, int v) {
    if constexpr (K == k_val || K == k_cval) return V(v);
    else if constexpr (K == k_mo) return MO(v);
    else if constexpr (K == k_crref) { auto p = std::make_shared<MO>(v); keep.push_back(p); return static_cast<const MO&&>(*p); }
    else { auto p = std::make_shared<V>(v); keep.push_back(p); return static_cast<typename el<K>::t>(*p); }
}
// the checks are not templates, so that all combinations can be compiled in reasonable time
void check_run(int cat, const std::vector<int>& kinds, const std::vector<const void*>& addrs, const std::vector<int>& vals, void (*construct)(void*, void*), void* tup) {
    memory m;
    g_calls.clear(); g_copies = g_moves = 0;
    bool thrown = false;
    try { construct(m.p(), tup); } catch (planned&) { thrown = true; }
    MC_EQ(thrown, g_throw, "an exception of the constructor is passed on");
    m.check();
    MC_EQ(g_calls.size(), size_t(1), "calls of the constructor");
    auto& c = g_calls[0];
    MC_CHECK(c.self == m.p(), "constructed in the given memory");
    MC_EQ(c.args.size(), kinds.size(), "arguments");
    MC_EQ(g_copies + g_moves, 0, "arguments aren't copied or moved on the way");
    for (size_t i = 0; i < kinds.size(); ++i) {
        MC_EQ(std::string(rname(c.args[i].type)), std::string(rname(expected(kinds[i], cat))), "category of argument " << i);
        MC_CHECK(c.args[i].addr == addrs[i], "argument " << i << " is the element itself");
        MC_EQ(c.args[i].val, vals[i], "value of argument " << i);
    }
}
template <int... K> struct run {
    using tuple = std::tuple<typename el<K>::t...>;
    static void go(int cat) {
        std::vector<std::shared_ptr<void>> keep;
        int v = 10;
        (void)v;
        tuple tup{make_el<K>(keep, v++)...};
        std::vector<const void*> addrs; std::vector<int> vals;
        each(tup, addrs, vals, std::make_index_sequence<sizeof...(K)>());
        using f = void (*)(void*, void*);
        static constexpr f fs[] = {
            [](void* mem, void* p) { impl::make_from_tuple<target>(mem, *static_cast<tuple*>(p)); },
            [](void* mem, void* p) { impl::make_from_tuple<target>(mem, *static_cast<const tuple*>(p)); },
            [](void* mem, void* p) { impl::make_from_tuple<target>(mem, std::move(*static_cast<tuple*>(p))); },
            [](void* mem, void* p) { impl::make_from_tuple<target>(mem, std::move(*static_cast<const tuple*>(p))); }};
        check_run(cat, {K...}, addrs, vals, fs[cat], &tup);
    }
    template <size_t... I> static void each(tuple& t, std::vector<const void*>& addrs, std::vector<int>& vals, std::index_sequence<I...>) { ((addrs.push_back(&std::get<I>(t)), vals.push_back(std::get<I>(t).v)), ...); }
};
constexpr int k3[] = {k_val, k_mo, k_lref, k_rref};
std::vector<tfn> g_fns[4]; // by number of elements
template <int N, int k> void add_one() {
    if constexpr (N == 0) g_fns[0].push_back(&run<>::go);
    else if constexpr (N == 1) g_fns[1].push_back(&run<k>::go);
    else if constexpr (N == 2) g_fns[2].push_back(&run<k % nk, k / nk>::go);
    else g_fns[3].push_back(&run<k3[k % 4], k3[k / 4 % 4], k3[k / 16]>::go);
}
template <int N, int... I> void add_all(std::integer_sequence<int, I...>) { (add_one<N, I>(), ...); }

// trivially usable things, references to functions, arrays, const targets
struct agg { int a; const char* s; int& r; int (&f)(int); agg(int a, const char* s, int& r, int (&f)(int)) : a(a), s(s), r(r), f(f) {} };
int twice(int x) { return 2 * x; }
struct expl { int v; explicit expl(std::initializer_list<int>) : v(-1) {} explicit expl(int a, int b) : v(a * 10 + b) {} explicit expl(std::tuple<int, int>) : v(-2) {} };
struct zero { int v; };
void special() {
    int w = mc::choose(5);
    if (mc::pruned()) return;
    MC_STEP("special " << w);
    alignas(16) unsigned char b[64]; memset(b, 0xC7, sizeof b);
    switch (w) {
    case 0: { int x = 5; impl::make_from_tuple<agg>(b, std::tuple<int, const char*, int&, int (&)(int)>(3, "s", x, twice)); auto& a = *std::launder(reinterpret_cast<agg*>(b)); MC_CHECK(a.a == 3 && a.s == std::string("s") && &a.r == &x && a.f(4) == 8, "arguments of different types"); break; }
    case 1: impl::make_from_tuple<expl>(b, std::make_tuple(1, 2)); MC_EQ(std::launder(reinterpret_cast<expl*>(b))->v, 12, "explicit constructor, no braces"); break;
    case 2: { std::pair<int, int> p(3, 4); impl::make_from_tuple<expl>(b, p); MC_EQ(std::launder(reinterpret_cast<expl*>(b))->v, 34, "pairs"); break; }
    case 3: { std::array<int, 2> a{5, 6}; impl::make_from_tuple<expl>(b, a); MC_EQ(std::launder(reinterpret_cast<expl*>(b))->v, 56, "arrays"); break; }
    case 4: impl::make_from_tuple<zero>(b, std::tuple<>()); MC_EQ(std::launder(reinterpret_cast<zero*>(b))->v, 0, "no arguments: value initialized"); break;
    }
}
}
// ---------------------------------------------------------------- through mutations of objects: arguments of add and construct
mixin_info& c23::tinfo() { static auto i = [] { auto i = new mixin_info(dnmx_make_mixin_info()); i->name = dnmx_make_sv_lit("target"); i->set_size_alignment(sizeof(target), alignof(target)); i->force_external = false; i->move_init = [](const mixin_info*, void* a, void* b) noexcept { memcpy(a, b, sizeof(target)); }; return i; }(); return *i; }
const mixin_info& _dynamix_get_mixin_info(const target*) { return tinfo(); }
void c23::check_through(const std::vector<int>& kinds, const std::vector<const void*>& addrs, void (*op)(domain&, object&, void*), void* as) {
    world_guard wg;
    {
        domain d("d");
        d.register_mixin(tinfo());
        object o(d);
        g_calls.clear(); g_copies = g_moves = 0;
        bool thrown = false;
        try { op(d, o, as); } catch (planned&) { thrown = true; }
        MC_EQ(thrown, g_throw, "an exception of the constructor is passed on");
        MC_EQ(g_calls.size(), size_t(1), "calls of the constructor");
        auto& c = g_calls[0];
        if (!thrown) MC_CHECK(c.self == o.get(tinfo()), "constructed in the object"); else MC_CHECK(o.empty(), "the object is as before");
        MC_EQ(c.args.size(), kinds.size(), "arguments");
        for (size_t i = 0; i < kinds.size(); ++i) {
            int k = kinds[i];
            MC_EQ(std::string(rname(c.args[i].type)), std::string(rname(k == a_lv ? lref : k == a_clv ? clref : k == a_crv ? crref : rref)), "category of argument " << i);
            MC_EQ(c.args[i].val, 20 + k, "value of argument " << i);
            if (k == a_lv || k == a_clv) MC_CHECK(c.args[i].addr == addrs[i], "argument " << i << " is the object which was given");
        }
        int crvs = 0; for (int k : kinds) crvs += k == a_crv;
        MC_EQ(g_copies, crvs, "copies of arguments (const temporaries can only be copied)");
        o.clear();
        d.unregister_mixin(tinfo());
    }
}

static void pick_fn(std::vector<tfn>& v, const char* what, int cats) {
    int i = mc::choose(int(v.size())), cat = mc::choose(cats); bool t = mc::flip();
    if (mc::pruned()) return;
    MC_STEP(what << " " << i << " category " << cat << (t ? ", the constructor throws" : ""));
    g_throw = t; v[size_t(i)](cat); g_throw = false;
}
int main(int argc, char** argv) {
    add_all<0>(std::make_integer_sequence<int, 1>()); add_all<1>(std::make_integer_sequence<int, nk>()); add_all<2>(std::make_integer_sequence<int, nk * nk>()); add_all<3>(std::make_integer_sequence<int, 64>());
    g_through[0].push_back(&through<1>); add_m0(); add_m1(); add_m2(); 
    for (int n = 0; n < 4; ++n) mc::section("tuples-of-" + std::to_string(n), [n] { pick_fn(g_fns[n], "tuple", 4); });
    mc::section("special", special);
    for (int n = 0; n < 3; ++n) mc::section("through-mutations-" + std::to_string(n), [n] { pick_fn(g_through[n], "mutation", 1); });
    return mc::main_(argc, argv, [] { setup_default(); });
}
