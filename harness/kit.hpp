// Instrumented memory resources, mixin allocators and mixins used by the harnesses.
// Everything here only talks to the public API of the library.
#pragma once
#include "mc.hpp"
#include <dynamix/domain.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/type_mutation.hpp>

#include <deque>
#include <map>
#include <memory>
#include <set>
#include <dynamix/compat/pmr/memory_resource.hpp>
#include <string>
#include <unordered_map>
#include <vector>
#include <cstring>
#include <new>

namespace kit {
using namespace dynamix;

// the harness itself is working (its own allocations are no failure points of the library)
inline int& busy() { static int b = 0; return b; }
struct busy_guard { busy_guard() { ++busy(); } ~busy_guard() { --busy(); } };

// ---------------------------------------------------------------- memory
#if DYNAMIX_HAS_PMR
using base_resource = std::pmr::memory_resource;
#else
using base_resource = compat::pmr::memory_resource; // the fallback of the library
#endif
// mixins without a destroy function which are alive: they end with their memory
inline int g_trivial = 0;
void forget_trivial(const void* p, size_t n);

struct res final : base_resource {
    struct blk { size_t size, align; };
    std::unordered_map<void*, blk> live;
    std::string name;
    uint64_t allocs = 0;
    bool (*fault)() = nullptr; // returns true if this allocation is to fail
    explicit res(std::string n) : name(std::move(n)) {}
    ~res() { check_empty("destruction of the resource"); }
    void check_empty(const char* when) {
        if (!live.empty()) mc::fail("resource " + name + ": " + std::to_string(live.size()) + " block(s) not returned at " + when);
    }
    void* do_allocate(size_t n, size_t a) override {
        if (a == 0 || (a & (a - 1))) mc::fail("resource " + name + ": bad alignment " + std::to_string(a));
        if (fault && fault()) throw std::bad_alloc();
        busy_guard bg;
        ++allocs;
        // fill bytes before the block so that it's aligned to exactly `a` and not more: under-aligned requests become visible
        size_t off = a < 16 ? 16 + a : 2 * a + a;
        if (off < 16) off = 16;
        size_t big = a < 16 ? 16 : 2 * a;
        auto raw = static_cast<char*>(::operator new(n + off, std::align_val_t(big)));
        char* p = raw + (a < 16 ? 16 : 2 * a);
        if ((reinterpret_cast<uintptr_t>(p) & (2 * a - 1)) == 0) p += a; // aligned to a, not to 2a
        auto q = p;
        raws[q] = {raw, big};
        live[q] = {n, a};
        memset(q, 0xA5, n);
        return q;
    }
    void do_deallocate(void* p, size_t n, size_t a) override {
        busy_guard bg;
        auto f = live.find(p);
        if (f == live.end()) mc::fail("resource " + name + ": deallocation of a block which doesn't belong to it (or double free)");
        if (f->second.size != n || f->second.align != a) mc::fail(MC_STR("resource " << name << ": deallocation with size/alignment " << n << '/' << a << " of a block allocated with " << f->second.size << '/' << f->second.align));
        live.erase(f);
        if (g_trivial) forget_trivial(p, n);
        auto r = raws[p]; raws.erase(p);
        memset(p, 0xD5, n);
        ::operator delete(r.first, std::align_val_t(r.second));
    }
    bool do_is_equal(const base_resource& o) const noexcept override { return this == &o; }
    bool owns(const void* p) const { return live.count(const_cast<void*>(p)); }
    // block which contains p
    const std::pair<void* const, blk>* find_containing(const void* p) const {
        for (auto& b : live) { auto c = (const char*)b.first; if ((const char*)p >= c && (const char*)p <= c + b.second.size) return &b; }
        return nullptr;
    }
private:
    std::unordered_map<void*, std::pair<char*, size_t>> raws;
};

// default resource of the process (set in setup())
inline res& def_res() { static auto r = new res("default"); return *r; }

// ---------------------------------------------------------------- probe mixins
enum fn { f_init, f_copy_init, f_move_init, f_copy_asgn, f_move_asgn, f_destroy, f_equals, f_compare, f_alloc, f_count };
inline const char* fn_name(int f) { static const char* n[] = {"init", "copy_init", "move_init", "copy_asgn", "move_asgn", "destroy", "equals", "compare", "alloc"}; return n[f]; }

struct probe;
struct rec { const probe* p; int val; bool moved; uint32_t serial; };

struct tracker {
    std::unordered_map<const void*, rec> live;
    std::vector<std::string> log;
    bool logging = false;
    uint32_t next_serial = 1;
    int next_val = 100; // value given to default constructed mixins
    uint64_t calls[f_count] = {};
    // 0 - ok, 1 - return an error, 2 - throw
    int (*fault)(fn, const probe&) = nullptr;

    int val(const void* m) { auto f = live.find(m); if (f == live.end()) mc::fail("mixin at this address isn't alive"); return f->second.val; }
    void set(const void* m, int v) { auto f = live.find(m); if (f == live.end()) mc::fail("mixin at this address isn't alive"); f->second.val = v; }
    void born(const mixin_info& i, void* m, int v);
};
inline tracker& T() { static auto t = new tracker; return *t; }

struct probe {
    mixin_info info = dnmx_make_mixin_info();
    std::string name;
    std::vector<feature_for_mixin> features;
    static const probe& of(const mixin_info* i) { return *reinterpret_cast<const probe*>(i->user_data); }
    operator const mixin_info&() const { return info; }
    operator mixin_info&() { return info; }
    probe(const probe&) = delete;
    probe& operator=(const probe&) = delete;

    explicit probe(std::string n, uint32_t size = 8, uint32_t align = 8) : name(std::move(n)) {
        info.name = dnmx_sv::from_std(name);
        info.set_size_alignment(size, align);
        info.user_data = reinterpret_cast<uintptr_t>(this);
        info.init = s_init; info.copy_init = s_copy_init; info.move_init = s_move_init;
        info.copy_asgn = s_copy_asgn; info.move_asgn = s_move_asgn; info.destroy = s_destroy;
        info.equals = s_equals; info.compare = s_compare;
    }
    probe& external() { info.force_external = true; return *this; }
    probe& no_move() { info.move_init = nullptr; info.move_asgn = nullptr; return *this; }
    probe& trivial() { info.destroy = nullptr; return *this; }
    probe& uses(mixin_allocator& a) { info.allocator = a.to_c_hanlde(); return *this; }
    probe& dependency() { info.dependency = true; return *this; }
    probe& feature(const feature_info& f, dnmx_feature_payload pl, int bid = 0, int prio = 0) {
        features.push_back({&f, pl, bid, prio});
        info.set_features(features);
        return *this;
    }

    static void pattern(const mixin_info* i, void* m, uint32_t serial) { memset(m, int(0x10 + serial % 200), i->size); }
    static rec& alive(const mixin_info* i, const void* m, const char* op) {
        auto f = T().live.find(m);
        if (f == T().live.end()) mc::fail(MC_STR(op << " of mixin '" << i->name.to_std() << "' at an address where no mixin is alive"));
        if (&f->second.p->info != i) mc::fail(MC_STR(op << " of mixin '" << i->name.to_std() << "' at an address of a mixin '" << f->second.p->name << "'"));
        auto b = static_cast<const unsigned char*>(m);
        for (uint32_t k = 0; k < i->size; ++k) if (b[k] != (unsigned char)(0x10 + f->second.serial % 200)) mc::fail(MC_STR("memory of mixin '" << i->name.to_std() << "' is overwritten"));
        return f->second;
    }
    static int pre(fn k, const mixin_info* i) {
        busy_guard bg;
        ++T().calls[k];
        if (T().logging) T().log.push_back(std::string(fn_name(k)) + " " + std::string(i->name.to_std()));
        int e = T().fault ? T().fault(k, of(i)) : 0;
        if (e == 2) throw std::runtime_error("planned failure");
        if (e == 3) throw 3;
        return e;
    }
    static dnmx_error_return_t s_init(const mixin_info* i, void* m) { if (int e = pre(f_init, i)) return e; T().born(*i, m, T().next_val++); return 0; }
    static dnmx_error_return_t s_copy_init(const mixin_info* i, void* m, const void* s) { int v = alive(i, s, "copy init from source").val; if (int e = pre(f_copy_init, i)) return e; T().born(*i, m, v); return 0; }
    static void s_move_init(const mixin_info* i, void* m, void* s) noexcept { auto& r = alive(i, s, "move init from source"); int v = r.val; r.moved = true; r.val = -1; pre(f_move_init, i); T().born(*i, m, v); }
    static dnmx_error_return_t s_copy_asgn(const mixin_info* i, void* m, const void* s) { int v = alive(i, s, "copy assign from source").val; alive(i, m, "copy assign"); if (int e = pre(f_copy_asgn, i)) return e; auto& r = alive(i, m, "copy assign"); r.val = v; r.moved = false; return 0; }
    static void s_move_asgn(const mixin_info* i, void* m, void* s) noexcept { pre(f_move_asgn, i); auto& r = alive(i, s, "move assign from source"); auto& t = alive(i, m, "move assign"); if (&r == &t) return; t.val = r.val; t.moved = false; r.moved = true; r.val = -1; }
    static void s_destroy(const mixin_info* i, void* m) noexcept { alive(i, m, "destroy"); pre(f_destroy, i); T().live.erase(m); memset(m, 0xDD, i->size); }
    static bool s_equals(const mixin_info* i, const void* a, const void* b) noexcept { pre(f_equals, i); return alive(i, a, "equals").val == alive(i, b, "equals").val; }
    static int s_compare(const mixin_info* i, const void* a, const void* b) noexcept { pre(f_compare, i); int x = alive(i, a, "compare").val, y = alive(i, b, "compare").val; return x < y ? -1 : x > y; }
};

inline void tracker::born(const mixin_info& i, void* m, int v) {
    busy_guard bg;
    if (i.alignment && (reinterpret_cast<uintptr_t>(m) & (i.alignment - 1))) mc::fail(MC_STR("mixin '" << i.name.to_std() << "' constructed at a misaligned address"));
    auto f = live.find(m);
    if (f != live.end() && !f->second.p->info.destroy) { live.erase(f); --g_trivial; f = live.end(); }
    if (!i.destroy) ++g_trivial;
    if (f != live.end()) mc::fail(MC_STR("mixin '" << i.name.to_std() << "' constructed at an address where a mixin is already alive"));
    uint32_t s = next_serial++;
    live[m] = {&probe::of(&i), v, false, s};
    probe::pattern(&i, m, s);
}

inline void forget_trivial(const void* p, size_t n) {
    auto b = static_cast<const char*>(p);
    for (auto i = T().live.begin(); i != T().live.end();) {
        auto m = static_cast<const char*>(i->first);
        if (m >= b && m < b + n && !i->second.p->info.destroy) { i = T().live.erase(i); --g_trivial; } else ++i;
    }
}

// mixin allocator over a tracking resource
struct mixalloc final : mixin_allocator {
    res r;
    explicit mixalloc(std::string n) : r(std::move(n)) {}
    ~mixalloc() {}
    std::unordered_map<void*, const mixin_info*> owner;
    byte_t* alloc_mixin_buf(const mixin_info& info) override {
        ++T().calls[f_alloc];
        if (T().fault) { int e = T().fault(f_alloc, probe::of(&info)); if (e) throw std::bad_alloc(); }
        auto p = r.allocate(info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset);
        owner[p] = &info;
        return static_cast<byte_t*>(p);
    }
    void dealloc_mixin_buf(byte_t* p, const mixin_info& info) noexcept override {
        auto f = owner.find(p);
        if (f == owner.end()) mc::fail("mixin allocator " + r.name + ": deallocation of a foreign buffer");
        if (f->second != &info) mc::fail("mixin allocator " + r.name + ": deallocation of a buffer for another mixin");
        owner.erase(f);
        r.deallocate(p, info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset);
    }
};

// ---------------------------------------------------------------- helpers
inline void reset_world() {
    if (!T().live.empty()) mc::fail("mixins alive at the end of an execution: " + T().live.begin()->second.p->name);
    T().log.clear(); T().logging = false; T().next_val = 100; T().next_serial = 1; T().fault = nullptr;
    g_trivial = 0;
    for (auto& c : T().calls) c = 0;
    def_res().fault = nullptr;
    if (!def_res().live.empty()) mc::fail("default memory resource: " + std::to_string(def_res().live.size()) + " block(s) not returned at the end of an execution");
}
struct world_guard { world_guard() { reset_world(); } ~world_guard() { reset_world(); } };

// what happened: "" - ok, otherwise class of exception
template <typename F>
std::string outcome_of(F&& f) {
    try { f(); return {}; }
    catch (domain_error&) { return "domain_error"; }
    catch (type_error&) { return "type_error"; }
    catch (object_error&) { return "object_error"; }
    catch (feature_error&) { return "feature_error"; }
    catch (exception&) { return "dynamix_exception"; }
    catch (std::bad_alloc&) { return "bad_alloc"; }
    catch (std::exception&) { return "std_exception"; }
}
template <typename F>
bool throws(F&& f) { return !outcome_of(f).empty(); }

// blocks which belong to an object (its buffer and the buffers of external mixins), with full checks of its layout
struct block_set { std::set<std::pair<const res*, const void*>> blocks; };
inline void check_layout(object& o, res& ores, block_set& out) {
    auto& t = o.get_type();
    auto h = o.to_c_hanlde();
    const char* buf = reinterpret_cast<const char*>(h->m_mixin_data);
    auto claim = [&](const res& r, const void* p, const char* what) { if (!out.blocks.insert({&r, p}).second) mc::fail(MC_STR(what << " is used twice")); };
    if (t.num_mixins() == 0) { MC_CHECK(!buf, "an empty object has a buffer"); MC_CHECK(o.empty(), "empty()"); return; }
    MC_CHECK(!o.empty(), "empty()");
    auto b = ores.live.find(const_cast<char*>(buf));
    MC_CHECK(b != ores.live.end(), "object buffer isn't a live block of the object's allocator");
    MC_EQ(b->second.size, size_t(t.object_buffer_size), "size of the object buffer");
    size_t al = sizeof(void*);
    for (auto m : t.mixins) if (!m->external() && m->alignment > al) al = m->alignment;
    MC_EQ(size_t(t.object_buffer_alignment), al, "alignment of the object buffer");
    MC_EQ(b->second.align, al, "alignment of the object buffer as allocated");
    claim(ores, buf, "object buffer");
    struct iv { const char *b, *e; };
    std::vector<iv> used{{buf, buf + t.num_mixins() * sizeof(object_mixin_data)}};
    for (mixin_index_t i = 0; i < t.num_mixins(); ++i) {
        auto& m = *t.mixins[i];
        auto p = static_cast<const char*>(o.get_at(i));
        MC_CHECK(o.unchecked_get_at(i) == p && o.get(m.id) == p && o.get(m) == p, "getters of mixin " << m.name.to_std());
        MC_CHECK(m.alignment == 0 || reinterpret_cast<uintptr_t>(p) % m.alignment == 0, "mixin " << m.name.to_std() << " is misaligned");
        MC_CHECK(object_of(static_cast<void*>(const_cast<char*>(p))) == &o, "object_of mixin " << m.name.to_std() << " isn't its object");
        MC_CHECK(object_of(static_cast<const void*>(p)) == &o, "object_of const mixin " << m.name.to_std() << " isn't its object");
        if (m.external()) {
            MC_EQ(t.mixin_offsets[i], 0u, "offset of an external mixin");
            res& r = m.allocator ? static_cast<mixalloc*>(mixin_allocator::from_c_handle(m.allocator))->r : ores;
            auto q = p - m.obj_buf_alignment_and_mixin_offset;
            auto f = r.live.find(const_cast<char*>(q));
            MC_CHECK(f != r.live.end(), "buffer of external mixin " << m.name.to_std() << " isn't a live block of allocator " << r.name);
            MC_EQ(f->second.size, size_t(m.obj_buf_size), "size of external buffer");
            MC_EQ(f->second.align, size_t(m.obj_buf_alignment_and_mixin_offset), "alignment of external buffer");
            MC_CHECK(m.obj_buf_alignment_and_mixin_offset >= sizeof(void*), "no place for the object pointer");
            MC_CHECK(p + m.size <= q + f->second.size, "external mixin " << m.name.to_std() << " overflows its buffer");
            claim(r, q, "external buffer");
        }
        else {
            MC_CHECK(p == buf + t.mixin_offsets[i], "offset of internal mixin");
            MC_CHECK(p + m.size <= buf + t.object_buffer_size, "internal mixin " << m.name.to_std() << " overflows the object buffer");
            used.push_back({p - sizeof(void*), p + m.size});
        }
    }
    for (size_t i = 0; i < used.size(); ++i) for (size_t j = 0; j < i; ++j)
        MC_CHECK(used[i].e <= used[j].b || used[j].e <= used[i].b, "memory of elements " << i << " and " << j << " of the object buffer overlaps");
}

using infos = std::vector<const mixin_info*>;
inline infos to_vec(itlib::span<const mixin_info* const> s) { return infos(s.begin(), s.end()); }
inline std::string names(const infos& v) { std::string r = "["; for (auto i : v) { if (r.size() > 1) r += ' '; r += std::string(i->name.to_std()); } return r + "]"; }
inline infos type_mixins(const type& t) { return to_vec(t.mixins); }

#if DYNAMIX_HAS_PMR
inline void setup_default() { std::pmr::set_default_resource(&def_res()); T(); }
#else
inline void setup_default() { T(); } // the default resource can't be replaced: nothing is ever allocated from def_res()
#endif
}
