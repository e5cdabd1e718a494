// Descriptions built from classes: which operations they have, what these do, what the builders put in, and registration.
// (C++20 for classes with conditionally trivial special members; the library itself is built as C++17)
#include "kit.hpp"
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dynamix/mixin_info_util.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/declare_domain.hpp>
#include <dynamix/define_type_class.hpp>
#include <array>
#include <new>
using namespace kit;
using namespace dynamix::util;

namespace {
// ---------------------------------------------------------------- classes with all kinds of special members
enum { triv, user, nothrow_, del, undecl };
const char* kname(int k) { static const char* n[] = {"trivial", "user's", "user's noexcept", "deleted", "undeclared"}; return n[k]; }
struct ev { const char* op; const void *self, *other; };
std::vector<ev> g_ev;
bool g_throw;
struct planned {};
void note(const char* op, const void* s, const void* o = nullptr) { g_ev.push_back({op, s, o}); }
void may_throw() { if (g_throw) throw planned(); }

template <int D, int C, int M, int CA, int MA, int X>
struct K {
    unsigned char b[5];
    K() requires (D == triv) = default;
    K() requires (D == user) { note("ctor", this); may_throw(); memset(b, 0x11, sizeof b); }
    K() requires (D == del) = delete;
    K(const K&) requires (C == triv) = default;
    K(const K& o) requires (C == user) { note("copy ctor", this, &o); may_throw(); memcpy(b, o.b, sizeof b); b[0] ^= 1; }
    K(const K& o) noexcept requires (C == nothrow_) { note("copy ctor", this, &o); memcpy(b, o.b, sizeof b); b[0] ^= 1; }
    K(const K&) requires (C == del) = delete;
    K(K&&) requires (M == triv) = default;
    K(K&& o) requires (M == user) { note("move ctor", this, &o); may_throw(); memcpy(b, o.b, sizeof b); b[0] ^= 2; o.b[0] ^= 4; }
    K(K&& o) noexcept requires (M == nothrow_) { note("move ctor", this, &o); memcpy(b, o.b, sizeof b); b[0] ^= 2; o.b[0] ^= 4; }
    K(K&&) requires (M == del) = delete;
    K& operator=(const K&) requires (CA == triv) = default;
    K& operator=(const K& o) requires (CA == user) { note("copy assignment", this, &o); may_throw(); memmove(b, o.b, sizeof b); b[0] ^= 8; return *this; }
    K& operator=(const K& o) noexcept requires (CA == nothrow_) { note("copy assignment", this, &o); memmove(b, o.b, sizeof b); b[0] ^= 8; return *this; }
    K& operator=(const K&) requires (CA == del) = delete;
    K& operator=(K&&) requires (MA == triv) = default;
    K& operator=(K&& o) requires (MA == user) { note("move assignment", this, &o); may_throw(); memmove(b, o.b, sizeof b); b[0] ^= 16; o.b[0] ^= 32; return *this; }
    K& operator=(K&& o) noexcept requires (MA == nothrow_) { note("move assignment", this, &o); memmove(b, o.b, sizeof b); b[0] ^= 16; o.b[0] ^= 32; return *this; }
    K& operator=(K&&) requires (MA == del) = delete;
    ~K() requires (X == triv) = default;
    ~K() requires (X == user) { note("dtor", this); }
};
struct cls { int d, c, m, ca, ma, x; size_t size, align; void (*init)(mixin_info&); };
std::vector<cls> g_cls;
template <int D, int C, int M, int CA, int MA, int X> void add_cls() {
    using T = K<D, C, M, CA, MA, X>;
    g_cls.push_back({D, C, M, CA, MA, X, sizeof(T), alignof(T), [](mixin_info& i) { common_init_mixin_info<T>(i); }});
}
// all combinations of constructors and destructors (with trivial assignments); all combinations of assignments with destructors and deleted/user's constructors
template <int I> void add_ctor() { add_cls<(I % 3 == 2 ? del : I % 3), I / 3 % 4, I / 12 % 5, triv, triv, I / 60>(); }
template <int I> void add_asgn() { add_cls<(I / 40 ? del : user), (I / 40 ? del : user), (I / 40 ? del : nothrow_), I % 4, I / 4 % 5, I / 20 % 2>(); }
template <int... I> void add_ctors(std::integer_sequence<int, I...>) { (add_ctor<I>(), ...); }
template <int... I> void add_asgns(std::integer_sequence<int, I...>) { (add_asgn<I>(), ...); }

// memory with guards
struct mem {
    static constexpr size_t G = 64;
    std::vector<unsigned char> v;
    unsigned char* p;
    size_t n;
    unsigned char fillb;
    mem(size_t n, unsigned char fill, size_t align = 64, size_t off = 0) : v(n + 2 * G + 2 * align + off, 0xC7), n(n), fillb(fill) {
        auto a = reinterpret_cast<uintptr_t>(v.data()) + G;
        p = v.data() + G + (align - a % align) % align + off;
        memset(p, fill, n);
    }
    void seq(int first) { for (size_t i = 0; i < n; ++i) p[i] = (unsigned char)(first + i * 7); }
    void outside(const char* what) {
        for (auto q = v.data(); q < v.data() + v.size(); ++q) if ((q < p || q >= p + n) && *q != 0xC7) mc::fail(MC_STR(what << " touches a byte " << (q < p ? "before" : "after") << " the mixin"));
    }
    std::string str() const { std::string s; for (size_t i = 0; i < n; ++i) { char b[4]; snprintf(b, 4, "%02x", p[i]); s += b; } return s; }
    bool all(unsigned char c) const { for (size_t i = 0; i < n; ++i) if (p[i] != c) return false; return true; }
};
enum { o_init, o_cinit, o_minit, o_casgn, o_masgn, o_destroy, o_n };
const char* oname(int o) { static const char* n[] = {"init", "copy_init", "move_init", "copy_asgn", "move_asgn", "destroy"}; return n[o]; }

std::string evs() { std::string s; for (auto& e : g_ev) s += std::string(s.empty() ? "" : ", ") + e.op; return s; }

void check_size(const mixin_info& i, size_t size, size_t align) {
    MC_EQ(size_t(i.size), size, "size"); MC_EQ(size_t(i.alignment), align, "alignment");
    size_t a = std::max(align, sizeof(void*));
    MC_EQ(size_t(i.obj_buf_alignment_and_mixin_offset), a, "offset in an external buffer");
    MC_EQ(size_t(i.obj_buf_size), a + size, "size of an external buffer");
}
// kind of the operation which a description of the class should have; del - none
int expected(const cls& k, int op) {
    switch (op) {
    case o_init: return k.d;
    case o_cinit: return k.c;
    case o_minit: { int m = k.m == undecl ? k.c : k.m; return m == user ? del : m; }
    case o_casgn: return k.ca;
    case o_masgn: { int m = k.ma == undecl ? k.ca : k.ma; return m == user ? del : m; }
    default: return k.x;
    }
}
const char* expected_ev(const cls& k, int op) {
    static const char* n[] = {"ctor", "copy ctor", "move ctor", "copy assignment", "move assignment", "dtor"};
    if (op == o_minit && k.m == undecl) return n[o_cinit];
    if (op == o_masgn && k.ma == undecl) return n[o_casgn];
    return n[op];
}
void classes() {
    auto& k = g_cls[size_t(mc::choose(int(g_cls.size())))];
    int op = mc::choose(o_n);
    bool self = (op == o_casgn || op == o_masgn) && mc::flip();
    bool thr = mc::flip();
    if (mc::pruned()) return;
    MC_STEP("class with default constructor " << kname(k.d) << ", copy constructor " << kname(k.c) << ", move constructor " << kname(k.m) << ", copy assignment " << kname(k.ca) << ", move assignment " << kname(k.ma) << ", destructor " << kname(k.x) << "; " << oname(op) << (self ? " of itself" : "") << (thr ? " throws" : ""));
    mixin_info i = dnmx_make_mixin_info();
    i.user_data = 77; i.name = dnmx_make_sv_lit("keep");
    k.init(i);
    check_size(i, k.size, k.align);
    MC_CHECK(!i.equals && !i.compare, "comparison isn't made from the class");
    MC_CHECK(i.user_data == 77 && i.name.to_std() == "keep" && !i.allocator && !i.features && !i.num_features && !i.order_priority && !i.force_external && !i.dependency && i.id == invalid_mixin_id && !i.dom, "other fields are left");
    bool have[] = {bool(i.init), bool(i.copy_init), bool(i.move_init), bool(i.copy_asgn), bool(i.move_asgn), bool(i.destroy)};
    for (int o = 0; o < o_destroy; ++o) MC_EQ(have[o], expected(k, o) != del, "operation " << oname(o) << " is there");
    MC_EQ(have[o_destroy], k.x == user, "destroy is there");
    if (!have[op]) return;
    int e = expected(k, op);
    mem a(k.size, 0xEE), b(k.size, 0); b.seq(3);
    if (op == o_casgn || op == o_masgn) a.seq(90);
    if (self) memcpy(b.p, a.p, k.size);
    void* tgt = a.p; void* src = self ? a.p : b.p;
    auto before = b.str(), abefore = a.str();
    g_ev.clear(); g_throw = thr;
    bool thrown = false; dnmx_error_return_t r = 0;
    try {
        switch (op) {
        case o_init: r = i.init(&i, tgt); break;
        case o_cinit: r = i.copy_init(&i, tgt, src); break;
        case o_minit: i.move_init(&i, tgt, src); break;
        case o_casgn: r = i.copy_asgn(&i, tgt, src); break;
        case o_masgn: i.move_asgn(&i, tgt, src); break;
        default: i.destroy(&i, tgt);
        }
    } catch (planned&) { thrown = true; }
    g_throw = false;
    a.outside(oname(op)); b.outside(oname(op));
    auto ev = evs();
    mc::outcome(MC_STR(oname(op) << e << ev << thrown));
    MC_EQ(thrown, thr && e == user && op != o_destroy, "exception is passed on");
    MC_EQ(r, dnmx_error_return_t(0), "result");
    if (e == triv) {
        MC_EQ(ev, std::string(), "functions of the class called by a trivial operation");
        if (op == o_init) { if (k.x == triv) MC_CHECK(a.all(0), "trivial init: all bytes are zero, got " << a.str()); }
        else if (!self) {
            MC_EQ(a.str(), before, "bytes of the target");
            if (op == o_cinit || op == o_casgn) MC_EQ(b.str(), before, "bytes of the source of a copy");
        }
        else if (op == o_casgn) MC_EQ(a.str(), abefore, "bytes after copying itself");
        return;
    }
    MC_EQ(ev, std::string(expected_ev(k, op)), "functions of the class which were called");
    MC_CHECK(g_ev[0].self == tgt, "called for the given memory");
    if (op != o_init && op != o_destroy) MC_CHECK(g_ev[0].other == src, "called with the given source");
    if (thrown) return;
    auto x = before; // what the class's function makes of it
    auto flip = [](std::string s, int bit) { int v = int(strtol(s.substr(0, 2).c_str(), nullptr, 16)) ^ bit; char c[3]; snprintf(c, 3, "%02x", v); return c + s.substr(2); };
    bool copies = expected_ev(k, op) == std::string("copy ctor") || expected_ev(k, op) == std::string("copy assignment");
    if (op == o_init) { std::string all; for (size_t q = 0; q < k.size; ++q) all += "11"; MC_EQ(a.str(), all, "bytes after the constructor"); }
    else if (op == o_destroy) {}
    else if (!self) {
        bool asg = op == o_casgn || op == o_masgn;
        MC_EQ(a.str(), flip(before, copies ? (asg ? 8 : 1) : (asg ? 16 : 2)), "bytes of the target");
        MC_EQ(b.str(), copies ? before : flip(before, asg ? 32 : 4), "bytes of the source");
    }
}

// ---------------------------------------------------------------- ready-made functions
template <size_t S, size_t A> struct alignas(A) P { unsigned char b[S]; };
struct psz { size_t size, align; void (*init)(mixin_info&); };
std::vector<psz> g_psz;
template <size_t S, size_t A> void add_p() { using T = P<S, A>; g_psz.push_back({sizeof(T), alignof(T), [](mixin_info& i) { common_init_mixin_info<T>(i); }}); }
template <size_t S> void add_ps() { add_p<S, 1>(); add_p<S, 2>(); add_p<S, 4>(); add_p<S, 8>(); add_p<S, 16>(); add_p<S, 32>(); add_p<S, 128>(); }
struct empty_class {};

void ready(mixin_info& i, size_t align, size_t off, bool destroy_too) {
    int op = mc::choose(6);
    int first = mc::choose(2) * 100;
    if (mc::pruned()) return;
    size_t n = i.size;
    mem a(n, 0xEE, align, off), b(n, 0, align, off); b.seq(first); if (op > 2) a.seq(200);
    auto before = b.str();
    MC_STEP("size " << n << " alignment " << align << " offset " << off << ": " << oname(op));
    switch (op) {
    case o_init: MC_EQ(i.init(&i, a.p), 0, "result"); MC_CHECK(a.all(0), "zero after init: " << a.str()); break;
    case o_cinit: MC_EQ(i.copy_init(&i, a.p, b.p), 0, "result"); MC_EQ(a.str(), before, "copy"); MC_EQ(b.str(), before, "source"); break;
    case o_casgn: MC_EQ(i.copy_asgn(&i, a.p, b.p), 0, "result"); MC_EQ(a.str(), before, "copy"); MC_EQ(b.str(), before, "source"); break;
    case o_minit: i.move_init(&i, a.p, b.p); MC_EQ(a.str(), before, "moved"); MC_CHECK(b.all(0), "source of a move: zero, got " << b.str()); break;
    case o_masgn: i.move_asgn(&i, a.p, b.p); MC_EQ(a.str(), before, "moved"); MC_CHECK(b.all(0), "source of a move: zero, got " << b.str()); break;
    default:
        if (!destroy_too) { MC_CHECK(!i.destroy, "nothing to destroy"); break; }
        dnmx_mixin_common_destroy_func(&i, a.p); MC_CHECK(a.all(0xfe), "0xfe after destroy: " << a.str());
        dnmx_mixin_common_move_func_copy(&i, a.p, b.p); MC_EQ(a.str(), before, "moved by copying"); MC_EQ(b.str(), before, "source of a move by copying");
    }
    a.outside(oname(op)); b.outside(oname(op));
}
void trivial_classes() {
    auto& k = g_psz[size_t(mc::choose(int(g_psz.size())))];
    mixin_info i = dnmx_make_mixin_info();
    k.init(i);
    check_size(i, k.size, k.align);
    MC_CHECK(i.init && i.copy_init && i.move_init && i.copy_asgn && i.move_asgn && !i.destroy && !i.equals && !i.compare && !i.external(), "operations of a trivial class");
    ready(i, std::max<size_t>(k.align, 64), 0, false);
}
void set_ready(mixin_info& i) {
    i.init = dnmx_mixin_common_init_func; i.copy_init = i.copy_asgn = dnmx_mixin_common_copy_func; i.move_init = i.move_asgn = dnmx_mixin_common_move_func;
}
void sizes() {
    int N = mc::pick(70, 300);
    int c = mc::choose(N + 4);
    size_t n = c < N ? size_t(c) : std::array<size_t, 4>{4095, 4096, 4097, 70001}[size_t(c - N)];
    size_t off = size_t(mc::choose(mc::pick(3, 9)));
    mixin_info i = dnmx_make_mixin_info();
    i.set_size_alignment(uint32_t(n), 1); check_size(i, n, 1);
    set_ready(i);
    ready(i, 64, off, true);
}
void compare() {
    static const unsigned char V[] = {0, 1, 0x7f, 0x80, 0xff};
    int n = mc::choose(mc::pick(4, 5));
    std::vector<unsigned char> a, b;
    for (int i = 0; i < n; ++i) { a.push_back(V[mc::choose(5)]); b.push_back(V[mc::choose(5)]); }
    if (mc::pruned()) return;
    // the bytes after the mixin differ
    a.insert(a.end(), {1, 2, 3}); b.insert(b.end(), {9, 8, 7});
    mixin_info i = dnmx_make_mixin_info(); i.set_size_alignment(uint32_t(n), 1);
    int want = 0;
    for (int k = 0; k < n && !want; ++k) want = int(a[size_t(k)]) - int(b[size_t(k)]);
    auto sg = [](int x) { return (x > 0) - (x < 0); };
    MC_STEP("compare " << n << " bytes");
    MC_EQ(sg(dnmx_mixin_common_cmp_func(&i, a.data(), b.data())), sg(want), "order");
    MC_EQ(dnmx_mixin_common_eq_func(&i, a.data(), b.data()), want == 0, "equality");
    MC_EQ(dnmx_mixin_noop_cmp_func(&i, a.data(), b.data()), 0, "noop comparison");
}
// long mixins with one or two differences at every position
void compare_long() {
    int N = mc::pick(70, 140);
    int c = mc::choose(N + 3);
    int n = c < N ? c : std::array<int, 3>{4095, 4096, 4097}[size_t(c - N)];
    int off = mc::choose(mc::pick(3, 9)), d = mc::choose(4);
    std::vector<int> at; for (int k = 0; k < n; ++k) if (n < N || k < 3 || k > n - 12 || (k > n / 2 - 9 && k <= n / 2)) at.push_back(k);
    int p = at.empty() ? -1 : at[size_t(mc::choose(int(at.size())))];
    int q = at.empty() || d < 2 ? -1 : std::min(n - 1, p + (d == 2 ? 1 : 9));
    if (mc::pruned()) return;
    std::unique_ptr<unsigned char[]> A(new unsigned char[size_t(n + off)]), B(new unsigned char[size_t(n + off)]);
    auto a = A.get() + off, b = B.get() + off;
    for (int k = 0; k < n; ++k) a[k] = b[k] = (unsigned char)(k * 7);
    mixin_info i = dnmx_make_mixin_info(); i.set_size_alignment(uint32_t(n), 1);
    MC_STEP("compare " << n << " bytes at offset " << off << ", differences at " << p << " and " << q);
    MC_CHECK(dnmx_mixin_common_eq_func(&i, a, b) && dnmx_mixin_common_cmp_func(&i, a, b) == 0, "equal mixins");
    if (p < 0) return;
    if (q >= 0) { a[q] = 0x01; b[q] = 0xfe; } // a later difference the other way round
    if (d & 1) { a[p] = 0x80; b[p] = 0x7f; } else { a[p] = 0xff; b[p] = 0; }
    MC_CHECK(!dnmx_mixin_common_eq_func(&i, a, b) && !dnmx_mixin_common_eq_func(&i, b, a), "equality of mixins which differ");
    MC_CHECK(dnmx_mixin_common_cmp_func(&i, a, b) > 0 && dnmx_mixin_common_cmp_func(&i, b, a) < 0, "order by the first difference");
}
struct eqc { int v; bool operator==(const eqc& o) const noexcept { return v % 3 == o.v % 3; } };
extern "C" { void c20_c_plain(mixin_info*); void c20_c_big(mixin_info*); void c20_c_empty(mixin_info*); unsigned c20_c_size(int); unsigned c20_c_align(int); }
void others() {
    int w = mc::choose(5);
    if (w < 3) { // C macros: they set everything
        mixin_info i; memset(static_cast<void*>(&i), mc::flip() ? 0xff : 0, sizeof i);
        (w == 0 ? c20_c_plain : w == 1 ? c20_c_big : c20_c_empty)(&i);
        static const char* nm[] = {"c_plain", "c_big", "c_empty"};
        MC_EQ(i.name.to_std(), std::string_view(nm[w]), "name by the C macro");
        MC_CHECK(i.id == invalid_mixin_id && !i.dom && !i.destroy && !i.equals && !i.allocator && !i.mixin_class && !i.type_info_class && !i.user_data && !i.features && !i.num_features && !i.order_priority && !i.force_external && !i.dependency && !i.external(), "defaults by the C macro");
        if (w < 2) { check_size(i, c20_c_size(w), c20_c_align(w)); MC_CHECK(!i.compare, "no comparison"); ready(i, 64, 0, false); return; }
    }
    // void / the empty C mixin: operations which do nothing
    mixin_info i = dnmx_make_mixin_info();
    if (w == 2) c20_c_empty(&i); else if (w == 3) common_init_mixin_info<void>(i);
    else {
        int a = mc::choose(4), b = mc::choose(4);
        if (mc::pruned()) return;
        eqc x{a}, y{b};
        MC_STEP("equality of " << a << " and " << b);
        MC_EQ(call_mixin_equality_operator<eqc>(&i, &x, &y), a % 3 == b % 3, "equality by the class's operator");
        mixin_info mi = dnmx_make_mixin_info(); DYNAMIX_COMMON_INIT_MI(mi, eqc);
        MC_EQ(mi.name.to_std(), std::string_view("eqc"), "name by the macro"); check_size(mi, sizeof(eqc), alignof(eqc));
        return;
    }
    if (mc::pruned()) return;
    MC_STEP("no-operation mixin");
    MC_CHECK(i.init && i.copy_init && i.move_init && i.copy_asgn && i.move_asgn && i.compare && !i.destroy && !i.equals, "operations");
    MC_EQ(size_t(i.size), size_t(0), "size"); MC_EQ(size_t(i.alignment), size_t(0), "alignment");
    mem a(16, 5), b(16, 6);
    MC_EQ(i.init(&i, a.p), 0, "init"); MC_EQ(i.copy_init(&i, a.p, b.p), 0, "copy"); MC_EQ(i.copy_asgn(&i, a.p, b.p), 0, "copy");
    i.move_init(&i, a.p, b.p); i.move_asgn(&i, a.p, b.p); MC_EQ(i.compare(&i, a.p, b.p), 0, "compare");
    MC_CHECK(a.all(5) && b.all(6), "they do nothing");
    a.outside("noop"); b.outside("noop");
}

// ---------------------------------------------------------------- the builder
struct Mx { int v; static int payload_for; };
int Mx::payload_for = 0;
common_feature_info& finfo(int i) { static common_feature_info f[3]; f[i].allow_clashes = true; f[i].name = i == 2 ? dnmx_make_sv_lit("f2") : i ? dnmx_make_sv_lit("f1") : dnmx_make_sv_lit("f0"); return f[i]; }
int g_trait_calls;
template <int I> struct Feat {
    struct traits {
        template <typename M, typename P> static any make_payload_by(allocator, M*, P& p) { static_assert(std::is_same_v<M, Mx>); ++g_trait_calls; return fwd_any(const_cast<std::remove_const_t<P>&>(p)); }
        template <typename M, typename P> static any make_payload_with(allocator a, M*, P&& p) { static_assert(std::is_same_v<M, Mx>); ++g_trait_calls; return make_any(a, std::forward<P>(p)); }
        template <typename M> static any make_payload_for(allocator, M*) { ++g_trait_calls; return fwd_any(M::payload_for); }
    };
    static const common_feature_info& get_info_safe() { return finfo(I); }
};
std::vector<std::string> g_rules;
dnmx_error_return_t apply0(dnmx_type_mutation_handle, uintptr_t ud) { g_rules.push_back("apply0/" + std::to_string(ud)); return 0; }
dnmx_error_return_t apply1(dnmx_type_mutation_handle, uintptr_t ud) { g_rules.push_back("apply1/" + std::to_string(ud)); return 0; }
template <typename M> dnmx_error_return_t applyt(dnmx_type_mutation_handle, uintptr_t ud) { g_rules.push_back("applyt/" + std::to_string(ud)); return 0; }
template <bool Dep> struct cr {
    static inline constexpr std::string_view name = Dep ? "makes_it_a_dependency_and_has_a_long_name" : "doesnt";
    struct r { mutation_rule_info::apply_func apply; bool makes_dependency; };
    template <typename M> static r get_rule_for() { static_assert(std::is_same_v<M, Mx>); return {&applyt<M>, Dep}; }
};
struct mfeat { const feature_info* f; int kind; const void* ptr; int val; int bid, prio; }; // kind 0: payload is ptr; 1: payload has val
struct mrule { std::string name; mutation_rule_info::apply_func f; uintptr_t ud; int prio; const mutation_rule_info* ptr; };

struct myalloc final : mixin_allocator {
    byte_t* alloc_mixin_buf(const mixin_info&) override { return nullptr; }
    void dealloc_mixin_buf(byte_t*, const mixin_info&) noexcept override {}
    static int alive; myalloc() { ++alive; } ~myalloc() { --alive; } myalloc(const myalloc&) { ++alive; }
};
int myalloc::alive = 0;

struct built {
    res r{"data"};
    std::unique_ptr<mixin_info_data> d;
    std::deque<std::string> texts; // of name()
    std::deque<int> ints;
    mutation_rule_info shared[2] = {};
    myalloc ma;
    // model
    std::string name;
    bool dep = false; uintptr_t ud = 0; int al = 0; // 0 none, 1 ma, 2 another
    std::vector<mfeat> fs; std::vector<mrule> rs;
    mutation_rule_info dummy{};
    built() {
        shared[0].name = dnmx_make_sv_lit("shared rule 0"); shared[0].apply = apply0; shared[0].user_data = 900; shared[0].order_priority = -3;
        shared[1].name = dnmx_make_sv_lit("shared rule 1"); shared[1].apply = apply1; shared[1].user_data = 901; shared[1].order_priority = 3;
        d = std::make_unique<mixin_info_data>(allocator(&r));
    }
    void check() {
        auto& i = d->info;
        MC_EQ(i.name.to_std(), std::string_view(name), "name");
        check_size(i, sizeof(Mx), alignof(Mx));
        MC_CHECK(i.init == dnmx_mixin_common_init_func && i.copy_init == dnmx_mixin_common_copy_func && i.copy_asgn == dnmx_mixin_common_copy_func && i.move_init == dnmx_mixin_common_move_func && i.move_asgn == dnmx_mixin_common_move_func && !i.destroy && !i.equals && !i.compare, "functions");
        MC_CHECK(!i.mixin_class && !i.type_info_class && !i.order_priority && !i.force_external, "other fields");
        MC_EQ(i.dependency, dep, "dependency"); MC_EQ(i.user_data, ud, "user data");
        MC_EQ(bool(i.allocator), al != 0, "has an allocator");
        if (al == 1) MC_CHECK(i.allocator == ma.to_c_hanlde() && myalloc::alive == 1, "allocator");
        if (al == 2) { MC_CHECK(i.allocator != ma.to_c_hanlde() && dynamic_cast<myalloc*>(mixin_allocator::from_c_handle(i.allocator)), "own allocator"); }
        MC_EQ(myalloc::alive, al == 2 ? 2 : 1, "allocators alive");
        MC_EQ(i.external(), al != 0, "external");
        MC_CHECK(d->get_allocator() == allocator(&r), "allocator of the data");
        MC_EQ(size_t(i.num_features), fs.size(), "number of features");
        auto sp = i.features_span();
        MC_EQ(sp.size(), fs.size(), "features");
        for (size_t k = 0; k < fs.size(); ++k) {
            auto& f = fs[k]; auto& g = sp[k];
            MC_CHECK(g.info == f.f, "feature " << k);
            MC_EQ(g.bid, f.bid, "bid of feature " << k); MC_EQ(g.priority, f.prio, "priority of feature " << k);
            if (f.kind == 0) MC_CHECK(g.payload == f.ptr, "payload of feature " << k);
            else { MC_CHECK(r.find_containing(g.payload), "payload of feature " << k << " lives with the data"); MC_EQ(*static_cast<const int*>(g.payload), f.val, "payload of feature " << k); }
        }
        MC_EQ(d->mutation_rule_infos.size(), rs.size(), "number of rules");
        for (size_t k = 0; k < rs.size(); ++k) {
            auto& e = rs[k]; auto& g = *d->mutation_rule_infos[k];
            MC_EQ(g.name.to_std(), std::string_view(e.name), "name of rule " << k); MC_CHECK(g.apply == e.f, "function of rule " << k);
            MC_EQ(g.user_data, e.ud, "user data of rule " << k); MC_EQ(g.order_priority, e.prio, "priority of rule " << k);
            if (e.ptr) MC_CHECK(&g == e.ptr, "rule " << k); else e.ptr = &g; // its address stays
        }
    }
};
struct perk { builder_perks p; bool b, q; int bid, prio; };
const perk& perks(int i) {
    using namespace builder_literals;
    static const perk p[] = {
        {{}, false, false, 0, 0}, {feature_bid(3), true, false, 3, 0}, {order_priority(-4), false, true, 0, -4}, {feature_bid_priority(-7, 8), true, true, -7, 8},
        {-feature_bid_priority(5, 6), true, true, -5, -6}, {12_bid, true, false, 12, 0}, {-9_prio, false, true, 0, -9}, {feature_bid_priority(0, 0), true, true, 0, 0},
    };
    return p[i];
}
constexpr int NP = 8;
const int KINDS = 11;
void implements(built& w, mixin_info_data_builder<Mx>& b, int kind, int fi, int pa, int pb) {
    auto& A = perks(pa); auto& B = perks(pb);
    mfeat m{&finfo(fi), 0, nullptr, 0, A.b ? A.bid : B.b ? B.bid : 0, A.q ? A.prio : B.q ? B.prio : 0};
    int v = 40 + int(w.fs.size());
    auto& slot = w.ints.emplace_back(v);
    const int& cslot = slot;
    g_trait_calls = 0; int want = 1;
    switch (kind) {
    case 0: b.implements_with_payload(finfo(fi), fwd_any(slot), A.p, B.p); m.ptr = &slot; want = 0; break;
    case 1: b.implements_by(finfo(fi), slot, A.p, B.p); m.ptr = &slot; want = 0; break;
    case 2: b.implements_with(finfo(fi), int(v), A.p, B.p); m.kind = 1; m.val = v; want = 0; break;
    case 3: b.implements_with(finfo(fi), slot, A.p, B.p); m.kind = 1; m.val = v; want = 0; break;
    case 4: fi ? b.implements_by<Feat<1>>(slot, A.p, B.p) : b.implements_by<Feat<0>>(slot, A.p, B.p); m.ptr = &slot; break;
    case 5: fi ? b.implements_by<Feat<1>>(cslot, A.p, B.p) : b.implements_by<Feat<0>>(cslot, A.p, B.p); m.ptr = &slot; break;
    case 6: fi ? b.implements_with<Feat<1>>(int(v), A.p, B.p) : b.implements_with<Feat<0>>(int(v), A.p, B.p); m.kind = 1; m.val = v; break;
    case 7: fi ? b.implements_with<Feat<1>>(slot, A.p, B.p) : b.implements_with<Feat<0>>(slot, A.p, B.p); m.kind = 1; m.val = v; break;
    case 8: fi ? b.implements<Feat<1>>(A.p, B.p) : b.implements<Feat<0>>(A.p, B.p); m.ptr = &Mx::payload_for; break;
    case 9: b.implements_with_payload(finfo(fi), any{}, A.p, B.p); want = 0; break;
    case 10: { auto p = make_any<int>(allocator(&w.r)); *p = v; b.implements_with_payload(finfo(fi), p, A.p, B.p); m.ptr = p.get(); want = 0; break; } // shared, then only owned by the data
    }
    MC_EQ(g_trait_calls, want, "calls of the feature's traits");
    w.fs.push_back(m);
}
const char* ops[] = {"name", "long name", "store_name", "store long name", "uses_allocator(ref)", "uses_allocator(any)", "uses_allocator<>", "user_data", "dependency", "dependency(false)", "implements 2", "implements 4", "implements 8", "rule 0", "rule 1", "named rule", "unnamed rule", "on_mutation dep", "on_mutation", "noop", "unnamed rule with priority", "new builder", "store own name", "named rule by default"};
constexpr int NOPS = sizeof(ops) / sizeof(ops[0]);
void build_op(built& w, std::unique_ptr<mixin_info_data_builder<Mx>>& bp, int op, int at) {
    auto& b = *bp; using namespace builder_literals;
    MC_STEP(ops[op]);
    auto longn = [&] { return "a rather long name which needs an allocation " + std::to_string(at); };
    mixin_info_data_builder<Mx>* ret = &b;
    auto index = w.rs.size();
    switch (op) {
    case 0: w.name = "n" + std::to_string(at); w.texts.push_back(w.name); ret = &b.name(w.texts.back()); break;
    case 1: w.name = longn(); w.texts.push_back(w.name); ret = &b.name(w.texts.back()); break;
    case 2: { w.name = "s" + std::to_string(at); auto t = std::make_unique<std::string>(w.name); ret = &b.store_name(*t); t->assign(t->size(), '#'); break; }
    case 3: { w.name = longn() + "S"; auto t = std::make_unique<std::string>(w.name); ret = &b.store_name(*t); t->assign(t->size(), '#'); break; }
    case 4: ret = &b.uses_allocator(w.ma); w.al = 1; break;
    case 5: ret = &b.uses_allocator(t_any<mixin_allocator>(fwd_any(static_cast<mixin_allocator&>(w.ma)))); w.al = 1; break;
    case 6: ret = &b.uses_allocator<myalloc>(); w.al = 2; break;
    case 7: w.ud = 70 + uintptr_t(at); ret = &b.user_data(w.ud); break;
    case 8: w.dep = true; ret = &b.dependency(); break;
    case 9: w.dep = false; ret = &b.dependency(false); break;
    case 10: implements(w, b, 2, 0, 1, 0); break;
    case 11: implements(w, b, 4, 1, 0, 2); break;
    case 12: implements(w, b, 8, 0, 3, 1); break;
    case 13: case 14: { auto& s = w.shared[op - 13]; ret = &b.adds_mutation_rule(s); w.rs.push_back({std::string(s.name.to_std()), s.apply, s.user_data, s.order_priority, &s}); w.dep = true; break; }
    case 15: { auto n = "rule with a long enough name " + std::to_string(at); ret = &b.adds_mutation_rule(compat::pmr::string(n), apply0, 500 + uintptr_t(at), perks(3).p); w.rs.push_back({n, apply0, 500 + uintptr_t(at), 8, nullptr}); w.dep = true; break; }
    case 16: ret = &b.adds_mutation_rule(apply1); w.rs.push_back({w.name + " rule " + std::to_string(index), apply1, 0, 0, nullptr}); w.dep = true; break;
    case 20: ret = &b.adds_mutation_rule(apply0, 600 + uintptr_t(at), -order_priority(5)); w.rs.push_back({w.name + " rule " + std::to_string(index), apply0, 600 + uintptr_t(at), -5, nullptr}); w.dep = true; break;
    case 17: ret = &b.on_mutation(cr<true>{}); w.rs.push_back({w.name + " makes_it_a_dependency_and_has_a_long_name<" + std::to_string(index) + ">", applyt<Mx>, 0, 0, nullptr}); w.dep = true; break;
    case 18: ret = &b.on_mutation(cr<false>{}, perks(2).p, 700 + uintptr_t(at)); w.rs.push_back({w.name + " doesnt<" + std::to_string(index) + ">", applyt<Mx>, 700 + uintptr_t(at), -4, nullptr}); break;
    case 19: ret = &b.noop(5); break;
    case 21: bp = std::make_unique<mixin_info_data_builder<Mx>>(nullptr, *w.d); ret = bp.get(); break; // continues with another builder
    case 23: { auto n = "r" + std::to_string(at); ret = &b.adds_mutation_rule(compat::pmr::string(n), apply1); w.rs.push_back({n, apply1, 0, 0, nullptr}); w.dep = true; break; }
    case 22: ret = &b.store_name(b.get_data().info.name.to_std()); break;
    }
    MC_CHECK(ret == bp.get() && &bp->get_data() == w.d.get() && bp->get_allocator() == allocator(&w.r), "builders return themselves");
}
using rule_list = std::multiset<std::string>;
std::string show(const rule_list& l) { std::string s; for (auto& x : l) s += x + "; "; return s; }
rule_list rules_of(domain& d) {
    rule_list l;
    domain_traverse(d).traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t n) { l.insert(MC_STR(r.name.to_std() << "/" << r.user_data << "/" << r.order_priority << " x" << n)); });
    return l;
}
rule_list rules_of(const std::map<const mutation_rule_info*, int>& m) {
    rule_list l;
    for (auto& [r, n] : m) if (n) l.insert(MC_STR(r->name.to_std() << "/" << r->user_data << "/" << r->order_priority << " x" << n));
    return l;
}
void in_domain(built& w) {
    res dr("domain");
    domain dom("d", {}, 0, nullptr, allocator(&dr));
    std::map<const mutation_rule_info*, int> m;
    for (auto* r : w.d->mutation_rule_infos) ++m[r];
    MC_STEP("register"); w.d->register_in(dom);
    auto& i = w.d->info;
    MC_CHECK(i.dom == dom.to_c_hanlde() && i.registered() && dom.get_mixin_info(w.name) == &i && dom.get_mixin_info(i.id) == &i, "the mixin is registered");
    for (auto& f : w.fs) MC_CHECK(f.f->id != invalid_feature_id && dom.get_feature_info(f.f->id) == f.f, "its features are registered");
    MC_EQ(show(rules_of(dom)), show(rules_of(m)), "rules of the domain");
    // each rule is applied to requests with its user data, in their order, each once per round
    g_rules.clear();
    std::vector<const mutation_rule_info*> order; for (auto& [r, n] : m) order.push_back(r);
    std::sort(order.begin(), order.end(), [](auto a, auto b) { return a->order_priority != b->order_priority ? a->order_priority < b->order_priority : a->name.to_std() < b->name.to_std(); });
    bool same = false; // rules with the same priority and name are applied in any order
    for (size_t k = 1; k < order.size(); ++k) if (order[k - 1]->order_priority == order[k]->order_priority && order[k - 1]->name.to_std() == order[k]->name.to_std()) same = true;
    std::vector<std::string> want;
    for (auto r : order) want.push_back((r->apply == apply0 ? "apply0/" : r->apply == apply1 ? "apply1/" : "applyt/") + std::to_string(r->user_data));
    const mixin_info* q[] = {&i};
    auto& t = dom.get_type(q);
    MC_EQ(size_t(t.num_mixins()), size_t(w.dep ? 0 : 1), "mixins in a type with it (dependencies aren't kept)");
    auto got = g_rules;
    if (same) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
    if (!want.empty()) {
        MC_CHECK(got.size() % want.size() == 0 && !got.empty(), "rules applied: " << got.size() << " of " << want.size());
        if (!same) for (size_t k = 0; k < got.size(); ++k) MC_EQ(got[k], want[k % want.size()], "rule applied");
    } else MC_EQ(got.size(), size_t(0), "rules applied");
    MC_STEP("unregister"); w.d->unregister_from(dom);
    MC_CHECK(!i.dom && !i.registered() && !dom.get_mixin_info(w.name), "the mixin is unregistered");
    MC_EQ(show(rules_of(dom)), std::string(), "rules of the domain");
    for (int k = 0; k < 2; ++k) if (finfo(k).id != invalid_feature_id) dom.unregister_feature(finfo(k));
}
// all sequences of builder calls
void builder(int len) {
    std::vector<int> seq;
    for (int k = 0; k < len; ++k) seq.push_back(mc::choose(NOPS));
    if (mc::pruned()) return;
    world_guard wg;
    built w;
    w.name = "initial";
    auto b = std::make_unique<mixin_info_data_builder<Mx>>(*w.d, "initial");
    w.check();
    for (size_t k = 0; k < seq.size(); ++k) { build_op(w, b, seq[k], int(k)); w.check(); }
    in_domain(w);
    w.check();
    mc::outcome(MC_STR(w.name << w.dep << w.ud << w.al << w.fs.size() << w.rs.size()));
    b.reset(); w.d.reset();
    MC_EQ(myalloc::alive, 1, "allocators alive after the data");
    w.r.check_empty("the end of the data");
}
void implement_kinds(int len) {
    struct c { int k, f, a, b; };
    std::vector<c> seq;
    for (int k = 0; k < len; ++k) seq.push_back({mc::choose(KINDS), mc::choose(2), mc::choose(len > 1 ? 4 : NP), len > 1 ? 0 : mc::choose(NP)});
    if (mc::pruned()) return;
    world_guard wg;
    built w;
    w.name = "x";
    mixin_info_data_builder<Mx> b(*w.d, dnmx_make_sv_lit("x"));
    for (auto& s : seq) { MC_STEP("implements, kind " << s.k << " feature " << s.f << " perks " << s.a << ", " << s.b); implements(w, b, s.k, s.f, s.a, s.b); w.check(); }
    w.d.reset(); w.r.check_empty("the end of the data");
}
void feature_builder(int len) {
    std::vector<int> seq;
    for (int k = 0; k < len; ++k) seq.push_back(mc::choose(9));
    bool svname = mc::flip();
    if (mc::pruned()) return;
    world_guard wg;
    res r("data");
    {
        feature_info_data d{allocator(&r)};
        std::deque<std::string> texts; std::deque<int> ints;
        std::string name = "initial"; const void* pl = nullptr; bool own = false; int val = 0;
        auto b = std::make_unique<feature_info_data_builder>(d, std::string_view("initial"));
        if (svname) b = std::make_unique<feature_info_data_builder>(d, dnmx_make_sv_lit("initial"));
        for (size_t k = 0; k < seq.size(); ++k) {
            auto longn = "a rather long name which needs an allocation " + std::to_string(k);
            MC_STEP("feature builder call " << seq[k]);
            feature_info_data_builder* ret = b.get();
            switch (seq[k]) {
            case 0: name = "n" + std::to_string(k); texts.push_back(name); ret = &b->name(texts.back()); break;
            case 1: { name = "s" + std::to_string(k); std::string t = name; ret = &b->store_name(t); t.assign(t.size(), '#'); break; }
            case 2: { name = longn; std::string t = name; ret = &b->store_name(t); t.assign(t.size(), '#'); break; }
            case 3: { auto& s = ints.emplace_back(int(k)); ret = &b->default_payload_by(s); pl = &s; own = false; break; }
            case 4: { val = 60 + int(k); ret = &b->default_payload_with(int(val)); own = true; break; }
            case 5: { int x = val = 50 + int(k); ret = &b->default_payload_with(x); own = true; break; }
            case 6: { ret = &b->default_payload({}); pl = nullptr; own = false; break; }
            case 7: { b = std::make_unique<feature_info_data_builder>(nullptr, d); ret = b.get(); break; }
            case 8: { ret = &b->store_name(d.info.name.to_std()); break; }
            }
            MC_CHECK(ret == b.get() && &b->get_data() == &d, "builders return themselves");
            MC_EQ(d.info.name.to_std(), std::string_view(name), "name");
            MC_CHECK(d.info.id == invalid_feature_id && d.info.allow_clashes == dnmx_make_feature_info().allow_clashes, "other fields");
            if (own) { MC_CHECK(r.find_containing(d.info.default_payload), "default payload lives with the data"); MC_EQ(*static_cast<const int*>(d.info.default_payload), val, "default payload"); }
            else MC_CHECK(d.info.default_payload == pl, "default payload");
        }
    }
    r.check_empty("the end of the data");
}
// features described by the arguments of a constructor
void feature_ctor() {
    int n = mc::choose(4); bool clash = mc::flip(), pl = mc::flip();
    if (mc::pruned()) return;
    int x = 0; dnmx_feature_payload p = pl ? &x : nullptr;
    MC_STEP("feature with " << n << " arguments " << clash << pl);
    auto nm = dnmx_make_sv_lit("ctor");
    std::unique_ptr<common_feature_info> f(n == 0 ? new common_feature_info : n == 1 ? new common_feature_info(nm) : n == 2 ? new common_feature_info(nm, clash) : new common_feature_info(nm, clash, p));
    MC_EQ(f->name.to_std(), n ? "ctor" : "", "name"); MC_EQ(f->allow_clashes, n > 1 && clash, "clashes are allowed"); MC_CHECK(f->default_payload == (n > 2 ? p : nullptr), "default payload");
    MC_CHECK(f->id == invalid_feature_id, "not registered");
}
// ---------------------------------------------------------------- registration of several descriptions with common rules, with failures
int g_left = -1; bool g_failed;
bool fail_alloc() { if (g_left < 0) return false; if (g_left-- == 0) { g_failed = true; return true; } return false; }
void registration(int len) {
    bool clash = mc::flip();
    struct step { int op, fail; };
    std::vector<step> seq;
    bool reg[2] = {};
    world_guard wg;
    res dr("domain"), r("data");
    mutation_rule_info shared{}; shared.name = dnmx_make_sv_lit("shared"); shared.apply = apply0; shared.user_data = 1;
    mixin_info_data a{allocator(&r)}, b{allocator(&r)};
    { mixin_info_data_builder<Mx> x(a, std::string_view("a")); x.adds_mutation_rule(shared).adds_mutation_rule(apply1, 2).adds_mutation_rule(shared).adds_mutation_rule(apply1, 3); }
    { mixin_info_data_builder<Mx> x(b, std::string_view(clash ? "a" : "b")); x.adds_mutation_rule(apply1, 4).adds_mutation_rule(shared).implements_by<Feat<0>>(Mx::payload_for); }
    mixin_info_data* D[] = {&a, &b};
    {
        auto d = std::make_unique<domain>("d", domain_settings{}, 0, nullptr, allocator(&dr));
        std::map<const mutation_rule_info*, int> m;
        dr.fault = fail_alloc; g_left = -1;
        for (int k = 0; k < len; ++k) {
            int w = mc::choose(3), f = -1;
            if (w < 2 && !reg[w]) f = mc::choose(mc::pick(14, 20)) - 1;
            if (mc::pruned()) break;
            if (w == 2) { // a request in between
                MC_STEP("request");
                g_rules.clear();
                std::vector<const mixin_info*> q; for (int x = 0; x < 2; ++x) if (reg[x]) q.push_back(&D[x]->info);
                auto& t = d->get_type(q); MC_EQ(int(t.num_mixins()), 0, "dependencies aren't kept");
            }
            else if (reg[w]) {
                MC_STEP("unregister " << w);
                D[w]->unregister_from(*d); reg[w] = false;
                for (auto* x : D[w]->mutation_rule_infos) --m[x];
            }
            else {
                MC_STEP("register " << w << (f >= 0 ? " with a failure of allocation " + std::to_string(f) : ""));
                g_failed = false; g_left = f;
                auto oc = outcome_of([&] { D[w]->register_in(*d); });
                g_left = -1;
                bool clashes = clash && reg[1 - w];
                if (g_failed) MC_CHECK(oc == "bad_alloc" || oc == "" || (clashes && oc == "domain_error"), "failed allocation: " << oc);
                else MC_EQ(oc, std::string(clashes ? "domain_error" : ""), "result");
                if (oc.empty()) { reg[w] = true; for (auto* x : D[w]->mutation_rule_infos) ++m[x]; }
                mc::outcome(MC_STR(w << f << oc));
            }
            for (int x = 0; x < 2; ++x) {
                auto& i = D[x]->info;
                MC_EQ(i.registered(), reg[x], "mixin " << x << " is registered"); MC_EQ(bool(i.dom), reg[x], "mixin " << x << " has a domain");
                if (reg[x]) MC_CHECK(d->get_mixin_info(i.id) == &i, "mixin " << x << " by id");
            }
            auto* byname = d->get_mixin_info("a");
            MC_CHECK(byname == (reg[0] ? &a.info : clash && reg[1] ? &b.info : nullptr), "mixin by name");
            MC_EQ(show(rules_of(*d)), show(rules_of(m)), "rules of the domain");
            if (!mc::visit(MC_STR(clash << reg[0] << reg[1] << d->num_types() << int(finfo(0).id.i) << a.info.id.i << b.info.id.i), len - k - 1)) break;
        }
        dr.fault = nullptr; g_left = -1;
        for (int x = 0; x < 2; ++x) if (reg[x]) D[x]->unregister_from(*d);
        if (finfo(0).id != invalid_feature_id) d->unregister_feature(finfo(0));
    }
}
}
// ---------------------------------------------------------------- definition macros
struct the_tag;
DYNAMIX_DECLARE_DOMAIN(the_tag);
struct plain_m { int a = 3; };
struct built_m { std::string s = "x"; };
DYNAMIX_DECLARE_MIXIN(struct plain_m);
DYNAMIX_DECLARE_MIXIN(struct built_m);
DYNAMIX_DECLARE_TYPE_CLASS(some_tc);
namespace { bool tc_func(dnmx_type_handle) noexcept { return true; } mutation_rule_info macro_rule{}; int macro_feat; }
template <typename M> struct my_builder : mixin_info_data_builder<M> { using mixin_info_data_builder<M>::mixin_info_data_builder; };
DYNAMIX_DEFINE_DOMAIN(the_tag, "the domain");
DYNAMIX_DEFINE_MIXIN(the_tag, plain_m);
DYNAMIX_DEFINE_MIXIN_EX(the_tag, built_m, my_builder).adds_mutation_rule(apply0, 42).implements_by(finfo(2), macro_feat, 7_bid).dependency(false);
DYNAMIX_DEFINE_TYPE_CLASS_WITH(the_tag, some_tc, tc_func);
namespace {
void macros() {
    std::vector<int> q; int n = mc::choose(3); for (int k = 0; k < n; ++k) q.push_back(mc::choose(2));
    if (mc::pruned()) return;
    auto& d = g::get_domain<the_tag>();
    MC_STEP("macros");
    MC_EQ(d.name(), std::string_view("the domain"), "name of the domain");
    auto& p = g::get_mixin_info<plain_m>(); auto& b = g::get_mixin_info<built_m>();
    MC_EQ(p.name.to_std(), std::string_view("plain_m"), "name"); MC_EQ(b.name.to_std(), std::string_view("built_m"), "name");
    MC_CHECK(d.get_mixin_info("plain_m") == &p && d.get_mixin_info("built_m") == &b && p.dom == d.to_c_hanlde() && b.dom == d.to_c_hanlde(), "mixins are registered in their domain");
    check_size(p, sizeof(plain_m), alignof(plain_m)); check_size(b, sizeof(built_m), alignof(built_m));
    MC_CHECK(p.init && p.copy_init && p.move_init && p.copy_asgn && p.move_asgn && !p.destroy, "operations of a trivially copyable class");
    MC_CHECK(b.init && b.copy_init && b.move_init && b.copy_asgn && b.move_asgn && b.destroy, "operations of a class");
    MC_CHECK(p.num_features == 0 && b.num_features == 1 && b.features[0].info == &finfo(2) && b.features[0].payload == &macro_feat && b.features[0].bid == 7 && !b.dependency && !p.dependency, "what the builder was told");
    MC_EQ(show(rules_of(d)), std::string("built_m rule 0/42/0 x1; "), "rules");
    auto tc = d.get_type_class("some_tc"); MC_CHECK(tc == &some_tc::m_dynamix_type_class && tc->matches == tc_func, "type class");
    // objects
    std::vector<const mixin_info*> l; for (int k : q) l.push_back(k ? &b : &p);
    bool dup = q.size() == 2 && q[0] == q[1];
    auto oc = outcome_of([&] {
        g_rules.clear();
        object o(d.get_type(l));
        MC_CHECK(g_rules.size() >= 1, "the rule is applied");
        for (int k : q) if (k) MC_EQ(o.get<built_m>()->s, std::string("x"), "value"); else MC_EQ(o.get<plain_m>()->a, 3, "value");
        o.clear();
    });
    MC_EQ(oc, std::string(dup ? "type_error" : ""), "an object of them");
    d.garbage_collect_types();
    MC_EQ(int(d.num_types()), 0, "types");
}
}
int main(int argc, char** argv) {
    add_ctors(std::make_integer_sequence<int, 120>()); add_asgns(std::make_integer_sequence<int, 80>());
    add_ps<1>(); add_ps<2>(); add_ps<3>(); add_ps<5>(); add_ps<8>(); add_ps<9>(); add_ps<16>(); add_ps<17>(); add_ps<33>(); add_ps<129>(); add_ps<300>();
    g_psz.push_back({sizeof(empty_class), alignof(empty_class), [](mixin_info& i) { common_init_mixin_info<empty_class>(i); }});
    mc::section("classes/all-special-members", classes);
    mc::section("trivial-classes/grid", trivial_classes);
    mc::section("ready-made-functions/sizes", sizes);
    mc::section("ready-made-functions/compare", compare);
    mc::section("ready-made-functions/compare-long", compare_long);
    mc::section("c-macros-and-void", others);
    mc::section("builder/all-sequences", [] { builder(mc::pick(4, 5)); });
    mc::section("implements/perks", [] { implement_kinds(1); });
    mc::section("implements/sequences", [] { implement_kinds(2); });
    mc::section("feature-builder/all-sequences", [] { feature_builder(mc::pick(4, 5)); });
    mc::section("feature-constructors", feature_ctor);
    mc::section("registration/failures", [] { registration(mc::pick(4, 6)); });
    mc::section("definition-macros", macros);
    return mc::main_(argc, argv, [] { setup_default(); });
}
