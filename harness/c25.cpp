// The memory resources of platforms without the standard ones: all sequences of allocations over grids of sizes and alignments.
#include "mc.hpp"
#include <dynamix/compat/pmr/memory_resource.hpp>
#include <dynamix/compat/pmr/allocator.hpp>
#include <dynamix/compat/pmr/vector.hpp>
#include <dynamix/compat/pmr/deque.hpp>
#include <dynamix/compat/pmr/map.hpp>
#include <dynamix/compat/pmr/set.hpp>
#include <dynamix/compat/pmr/string.hpp>
#include <algorithm>
#include <cstring>
#include <limits>
#include <malloc.h>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <vector>
namespace pmr = dynamix::compat::pmr;
#if DYNAMIX_HAS_PMR
#error wrong configuration
#endif

namespace {
struct block { unsigned char* p; size_t n, a; unsigned char fill; int how; size_t count; };
// a check of everything which is allocated
void check_block(const block& b) { for (size_t i = 0; i < b.n; ++i) MC_CHECK(b.p[i] == b.fill, "the contents of a block of " << b.n << " bytes"); }
void check_new(std::vector<block>& live, block b) {
    MC_CHECK(b.p != nullptr, "memory");
    MC_EQ(reinterpret_cast<uintptr_t>(b.p) % b.a, uintptr_t(0), "alignment to " << b.a);
    for (auto& o : live) {
        MC_CHECK(b.p != o.p, "live blocks have different addresses");
        MC_CHECK(b.p + b.n <= o.p || o.p + o.n <= b.p, "live blocks are disjoint");
    }
    memset(b.p, b.fill, b.n);
    for (auto& o : live) check_block(o);
    live.push_back(b);
}
template <size_t N, size_t A> struct alignas(A) T { unsigned char b[N]; };
const size_t sizes[] = {0, 1, 7, 8, 24, 100}, aligns[] = {1, 2, 4, 8, 16, 64, 4096};
// ways to allocate: the resource, allocate_bytes of an allocator, default alignment of both, and typed
enum { h_res, h_bytes, h_res_def, h_bytes_def, h_t1, h_t12, h_t32, h_count };
const char* hname[] = {"resource", "allocate_bytes", "resource, default alignment", "allocate_bytes, default alignment", "allocator of 1", "allocator of 12 by 4", "allocator of 64 by 32"};
using T1 = T<1, 1>; using T12 = T<12, 4>; using T32 = T<64, 32>;
block get(pmr::memory_resource* r, int how, size_t n, size_t a) {
    block b{nullptr, n, a, 0, how, n};
    pmr::allocator<> al(r);
    switch (how) {
    case h_res: b.p = static_cast<unsigned char*>(r->allocate(n, a)); break;
    case h_bytes: b.p = static_cast<unsigned char*>(al.allocate_bytes(n, a)); break;
    case h_res_def: b.p = static_cast<unsigned char*>(r->allocate(n)); b.a = alignof(std::max_align_t); break;
    case h_bytes_def: b.p = static_cast<unsigned char*>(al.allocate_bytes(n)); b.a = alignof(std::max_align_t); break;
    case h_t1: b.p = reinterpret_cast<unsigned char*>(pmr::allocator<T1>(r).allocate(n)); b.a = 1; break;
    case h_t12: b.p = reinterpret_cast<unsigned char*>(pmr::allocator<T12>(al).allocate(n)); b.n = n * sizeof(T12); b.a = alignof(T12); break;
    case h_t32: b.p = reinterpret_cast<unsigned char*>(pmr::allocator<T32>(r).allocate(n)); b.n = n * sizeof(T32); b.a = alignof(T32); break;
    }
    return b;
}
void put(pmr::memory_resource* r, const block& b) {
    pmr::allocator<> al(r);
    switch (b.how) {
    case h_res: r->deallocate(b.p, b.n, b.a); break;
    case h_bytes: al.deallocate_bytes(b.p, b.n, b.a); break;
    case h_res_def: r->deallocate(b.p, b.n); break;
    case h_bytes_def: al.deallocate_bytes(b.p, b.n); break;
    case h_t1: pmr::allocator<T1>(r).deallocate(reinterpret_cast<T1*>(b.p), b.count); break;
    case h_t12: pmr::allocator<T12>(al).deallocate(reinterpret_cast<T12*>(b.p), b.count); break;
    case h_t32: pmr::allocator<T32>(r).deallocate(reinterpret_cast<T32*>(b.p), b.count); break;
    }
}
void sequences(int len, int ns, int na) {
    auto* r = pmr::get_default_resource();
    std::vector<block> live;
    for (int k = 0; k < len; ++k) {
        int op = mc::choose(int(live.size()) + h_count + 1);
        if (op == 0) break;
        if (op <= h_count) {
            int how = op - 1; size_t n = sizes[mc::choose(ns)], a = how == h_res || how == h_bytes ? aligns[mc::choose(na)] : 1;
            if (mc::pruned()) break;
            MC_STEP("allocate " << n << " aligned to " << a << " by " << hname[how]);
            auto b = get(r, how, n, a); b.fill = static_cast<unsigned char>(k * 37 + 1);
            check_new(live, b);
        }
        else {
            if (mc::pruned()) break;
            MC_STEP("free " << op - h_count - 1);
            auto b = live[size_t(op - h_count - 1)]; live.erase(live.begin() + (op - h_count - 1));
            check_block(b); put(r, b);
            for (auto& o : live) check_block(o);
        }
    }
    for (auto& b : live) { check_block(b); put(r, b); }
}
// all sizes and alignments of a grid, two blocks at a time
void grid() {
    size_t a = size_t(1) << mc::choose(mc::pick(14, 18)), n = size_t(mc::choose(mc::pick(200, 1100))); bool by = mc::flip();
    if (mc::pruned()) return;
    MC_STEP("allocate " << n << " and " << n + 1 << " aligned to " << a << (by ? " by allocate_bytes" : ""));
    auto* r = pmr::get_default_resource(); std::vector<block> live;
    for (int i = 0; i < 2; ++i) { auto b = get(r, by ? h_bytes : h_res, n + size_t(i), a); b.fill = static_cast<unsigned char>(7 + i); check_new(live, b); }
    for (auto& b : live) { check_block(b); put(r, b); }
}
// sizes for which there may be no memory; without a sanitizer, as these have limits of their own
#if !defined(__SANITIZE_ADDRESS__)
void huge() {
    static const size_t base[] = {size_t(1) << 31, size_t(1) << 32, size_t(1) << 33, (size_t(1) << 32) + 4096};
    size_t b = base[mc::choose(4)], n = b + size_t(mc::choose(9)) - 4, a = aligns[mc::choose(7)]; int how = mc::choose(3);
    if (mc::pruned()) return;
    MC_STEP("allocate " << n << " aligned to " << a << " in way " << how);
    auto* r = pmr::get_default_resource();
    void* p = nullptr; bool failed = false;
    try {
        switch (how) {
        case 0: p = r->allocate(n, a); break;
        case 1: p = pmr::allocator<>(r).allocate_bytes(n, a); break;
        default: p = pmr::allocator<unsigned char>(r).allocate(n); a = 1; break;
        }
    } catch (std::bad_alloc&) { failed = true; }
    if (failed) { // fine if there really is no such memory
        void* q = aligned_alloc(a, (n + a - 1) / a * a); bool could = q != nullptr; free(q);
        MC_CHECK(!could, "an allocation of " << n << " bytes failed although there is memory");
        return;
    }
    MC_CHECK(p && reinterpret_cast<uintptr_t>(p) % a == 0, "aligned to " << a);
    MC_CHECK(malloc_usable_size(p) >= n, "got " << malloc_usable_size(p) << " bytes instead of " << n);
    static_cast<volatile char*>(p)[0] = 1; static_cast<volatile char*>(p)[n - 1] = 2;
    switch (how) {
    case 0: r->deallocate(p, n, a); break;
    case 1: pmr::allocator<>(r).deallocate_bytes(p, n, a); break;
    default: pmr::allocator<unsigned char>(r).deallocate(static_cast<unsigned char*>(p), n); break;
    }
}
template <typename X> void too_many(size_t n) {
    X* p = nullptr; bool failed = false;
    try { p = pmr::allocator<X>().allocate(n); } catch (std::bad_alloc&) { failed = true; }
    MC_CHECK(failed, "an array of " << n << " elements of " << sizeof(X) << " bytes was allocated with " << malloc_usable_size(p) << " bytes");
}
void impossible() {
    constexpr size_t max = std::numeric_limits<size_t>::max();
    int how = mc::choose(7), k = mc::choose(300); size_t a = aligns[how < 2 ? mc::choose(7) : 0];
    if (mc::pruned()) return;
    MC_STEP("impossible size " << k << " in way " << how << " aligned to " << a);
    auto* r = pmr::get_default_resource(); void* p = nullptr; bool failed = false;
    switch (how) {
    case 0: case 1:
        try { p = how ? pmr::allocator<>(r).allocate_bytes(max - size_t(k), a) : r->allocate(max - size_t(k), a); } catch (std::bad_alloc&) { failed = true; }
        MC_CHECK(failed, "an allocation of nearly all addresses gave " << p << " of " << malloc_usable_size(p) << " bytes"); break;
    case 2: too_many<T12>(max / sizeof(T12) + 1 + size_t(k)); break;
    case 3: too_many<T32>(max / sizeof(T32) + 1 + size_t(k)); break;
    case 4: too_many<T32>(max - size_t(k)); break;
    case 5: too_many<T12>(max / sizeof(T12) - size_t(k)); break;
    case 6: too_many<T1>(max - size_t(k)); break;
    }
}
#endif
// ---------------------------------------------------------------- resources of the user
struct call { bool alloc; void* p; size_t n, a; };
struct recorder final : pmr::memory_resource {
    std::vector<call> calls; std::map<void*, std::pair<size_t, size_t>> live; bool fail = false, equal_to_all = false; size_t total = 0;
    void* do_allocate(std::size_t n, std::size_t a) override {
        if (fail) throw std::bad_alloc();
        void* p = ::operator new(n ? n : 1, std::align_val_t(a)); calls.push_back({true, p, n, a}); live[p] = {n, a}; ++total; return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override {
        calls.push_back({false, p, n, a});
        auto i = live.find(p); MC_CHECK(i != live.end(), "a block which isn't from this resource is given back");
        MC_CHECK(i->second == std::make_pair(size_t(n), size_t(a)), "a block of " << i->second.first << " aligned to " << i->second.second << " is given back as " << n << " aligned to " << a);
        live.erase(i); ::operator delete(p, std::align_val_t(a));
    }
    bool do_is_equal(const pmr::memory_resource& o) const noexcept override { return equal_to_all || this == &o; }
    ~recorder() { if (!live.empty()) mc::fail(MC_STR(live.size() << " blocks were not given back")); }
};
void recorded() {
    int how = mc::choose(h_count); size_t n = size_t(mc::choose(40)), a = how == h_res || how == h_bytes ? size_t(1) << mc::choose(13) : 1; bool fail = mc::flip();
    if (mc::pruned()) return;
    MC_STEP("allocate " << n << " aligned to " << a << " by " << hname[how] << (fail ? ", the resource fails" : ""));
    recorder r; r.fail = fail; block b; bool failed = false;
    try { b = get(&r, how, n, a); } catch (std::bad_alloc&) { failed = true; }
    MC_EQ(failed, fail, "failures are passed on");
    if (fail) { MC_CHECK(r.calls.empty(), "no other calls"); return; }
    auto& c = r.calls.back();
    MC_CHECK(r.calls.size() == 1 && c.alloc && c.p == b.p, "the memory of the resource is returned");
    MC_EQ(c.n, b.n, "size asked of the resource"); MC_EQ(c.a, b.a, "alignment asked of the resource");
    put(&r, b);
    MC_CHECK(r.calls.size() == 2 && !r.calls[1].alloc && r.calls[1].p == b.p, "the memory is given back to the resource");
}
void equality() {
    recorder r[2]; r[1].equal_to_all = true;
    pmr::memory_resource* all[] = {pmr::get_default_resource(), &r[0], &r[1]};
    int i = mc::choose(3), j = mc::choose(3), how = mc::choose(4);
    if (mc::pruned()) return;
    MC_STEP("resources " << i << " and " << j << " in way " << how);
    auto *x = all[i], *y = all[j];
    switch (how) {
    case 0: MC_EQ(x->is_equal(*y), i == j || i == 2, "is_equal"); MC_CHECK(pmr::get_default_resource() == all[0], "one default resource"); break;
    case 1: { pmr::allocator<> a(x), b(y); MC_EQ(a == b, i == j, "allocators =="); MC_EQ(a != b, i != j, "allocators !="); MC_CHECK(a.resource() == x && b.resource() == y, "the resource of an allocator"); break; }
    case 2: { pmr::allocator<int> a(x); pmr::allocator<T32> b(y); MC_EQ(a == b, i == j, "allocators of different types =="); MC_EQ(a != b, i != j, "allocators of different types !="); break; }
    case 3: {
        pmr::allocator<int> a(x); pmr::allocator<int> b(a); pmr::allocator<T12> c(b); auto d = std::allocator_traits<pmr::allocator<T12>>::rebind_alloc<char>(c);
        MC_CHECK(b.resource() == x && c.resource() == x && d.resource() == x, "copies of allocators use the same resource");
        MC_CHECK(c.select_on_container_copy_construction().resource() == all[0], "copies of containers use the default resource");
        pmr::allocator<> e; MC_CHECK(e.resource() == all[0], "allocators use the default resource by default"); break; }
    }
}
// containers over recording resources: all sequences of operations; contents against standard containers
struct vec_c { using c = pmr::vector<int>; using s = std::vector<int>; template <typename C> static void ins(C& x, int v) { x.push_back(v); } template <typename C> static void del(C& x) { if (!x.empty()) x.pop_back(); } };
struct deq_c { using c = pmr::deque<int>; using s = std::vector<int>; template <typename C> static void ins(C& x, int v) { x.insert(x.begin(), v); } template <typename C> static void del(C& x) { if (!x.empty()) x.pop_back(); } };
struct set_c { using c = pmr::set<int>; using s = std::set<int>; template <typename C> static void ins(C& x, int v) { x.insert(v); } template <typename C> static void del(C& x) { if (!x.empty()) x.erase(x.begin()); } };
struct map_c { using c = pmr::map<int, int>; using s = std::map<int, int>; template <typename C> static void ins(C& x, int v) { x[v] = v * v; } template <typename C> static void del(C& x) { if (!x.empty()) x.erase(x.begin()); } };
struct str_c { using c = pmr::string; using s = std::string; template <typename C> static void ins(C& x, int v) { x.append(size_t(v) * 9 + 1, char('a' + v)); } template <typename C> static void del(C& x) { if (!x.empty()) x.pop_back(); } };
template <typename K> void containers(int len) {
    using C = typename K::c; using S = typename K::s;
    std::vector<int> ops; for (int i = 0; i < len; ++i) { int o = mc::choose(10); if (!o) break; ops.push_back(o); }
    if (mc::pruned()) return;
    recorder r[2];
    {
        struct one { std::unique_ptr<C> c; S s; pmr::memory_resource* r; };
        one x[2]; for (int i = 0; i < 2; ++i) { x[i].c.reset(new C(&r[i])); x[i].r = &r[i]; }
        int v = 0;
        for (int o : ops) {
            MC_STEP("operation " << o);
            switch (o) {
            case 1: case 2: K::ins(*x[o - 1].c, v % 5); K::ins(x[o - 1].s, v % 5); ++v; break;
            case 3: K::del(*x[0].c); K::del(x[0].s); break;
            case 4: *x[0].c = *x[1].c; x[0].s = x[1].s; break; // keeps its resource
            case 5: { *x[0].c = std::move(*x[1].c); x[0].s = x[1].s; x[1].c->clear(); x[1].s.clear(); break; }
            case 6: { std::unique_ptr<C> n(new C(*x[1].c)); x[0].c = std::move(n); x[0].s = x[1].s; x[0].r = pmr::get_default_resource(); break; }
            case 7: { std::unique_ptr<C> n(new C(std::move(*x[1].c))); x[1].c->clear(); x[0].c = std::move(n); x[0].s = x[1].s; x[1].s.clear(); x[0].r = x[1].r; break; }
            case 8: { std::unique_ptr<C> n(new C(*x[0].c, &r[1])); x[1].c = std::move(n); x[1].s = x[0].s; x[1].r = &r[1]; break; }
            case 9: { if (x[0].r != x[1].r) break; std::swap(*x[0].c, *x[1].c); std::swap(x[0].s, x[1].s); break; }
            }
            for (int i = 0; i < 2; ++i) {
                MC_CHECK(x[i].c->size() == x[i].s.size() && std::equal(x[i].s.begin(), x[i].s.end(), x[i].c->begin()), "contents of container " << i);
                MC_CHECK(x[i].c->get_allocator().resource() == x[i].r, "resource of container " << i);
            }
            for (auto& w : r) if (x[0].r != &w && x[1].r != &w) MC_CHECK(w.live.empty(), "a resource no container uses got everything back");
        }
    }
    for (auto& w : r) MC_CHECK(w.live.empty(), "everything is given back");
}
}
int main(int argc, char** argv) {
#if !defined(__SANITIZE_ADDRESS__)
    mc::section("plain/huge", huge);
    mc::section("plain/impossible", impossible);
    mc::section("plain/sequences", [] { sequences(mc::pick(3, 4), 4, 4); });
#else
    mc::section("sequences", [] { sequences(mc::pick(3, 4), 6, 7); });
    mc::section("sequences/few-sizes", [] { sequences(mc::pick(4, 5), 3, 2); });
    mc::section("grid", grid);
    mc::section("recorded", recorded);
    mc::section("equality", equality);
    mc::section("containers/vector", [] { containers<vec_c>(mc::pick(5, 6)); });
    mc::section("containers/deque", [] { containers<deq_c>(mc::pick(5, 6)); });
    mc::section("containers/set", [] { containers<set_c>(mc::pick(5, 6)); });
    mc::section("containers/map", [] { containers<map_c>(mc::pick(5, 6)); });
    mc::section("containers/string", [] { containers<str_c>(mc::pick(5, 6)); });
#endif
    return mc::main_(argc, argv, [] {});
}
