// The C interface against the C++ interface: the same operations in two worlds must give the same observations; failures inside C functions never escape.
#include "kit.hpp"
#include "wide2.hpp"
#include <dynamix/mutate.hpp>
#include <dnmx/domain.h>
#include <dnmx/mixin_allocator.h>
#include <dnmx/mutate.h>
#include <dnmx/object.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>
#include <algorithm>
#include <cstdlib>
using namespace kit;

namespace {
// the planned failure
int g_left = -1; bool g_fired = false, g_fired_alloc = false; int g_kind = 1; // 1: error, 2: std exception, 3: other exception
bool hit() { if (g_left < 0 || busy()) return false; if (g_left-- > 0) return false; g_fired = true; g_left = -1; return true; }
bool fault_alloc() { bool r = hit(); if (r) g_fired_alloc = true; return r; } // of plain memory: what needs less memory than it asks for may go on without
int fault_fn(fn f, const probe&) {
    if (f != f_init && f != f_copy_init && f != f_copy_asgn) return 0;
    int b = busy(); busy() = 0; bool h = hit(); busy() = b;
    return h ? g_kind : 0;
}
}
void* operator new(size_t n) { if (fault_alloc()) throw std::bad_alloc(); if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fault_alloc() ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

namespace {
using list = std::vector<int>;
enum { NM = 4, NF = 2 };
const std::vector<list> LISTS = {{}, {0}, {1}, {1, 0}, {2, 0}, {0, 1, 2}, {0, 0}, {3}};
const std::vector<std::string> NAMES = {"a", "b", "f", "zz", ""};

template <int V> struct give { void operator()(init_new_args a) const { T().born(a.info, a.mixin_buf, V); } };
struct world* g_w;
struct world {
    bool c; // through the C interface
    std::deque<probe> ps;
    feature_info f[NF];
    mutation_rule_info rule[2];
    type_class tc;
    dnmx_mixin_allocator_handle ma = nullptr;
    domain* d = nullptr;
    object* o[2] = {};
    std::vector<std::string> obs; // observations
    std::map<void*, const mixin_info*> mixin_bufs;
    std::string updates; // of common mixins

    explicit world(bool c_) : c(c_) {
        g_w = this; T().next_val = 100;
        domain_settings s{}; s.allow_duplicate_feature_names = true;
        if (c) {
            ma = dnmx_create_mixin_allocator([](const dnmx_mixin_info* i) -> void* { if (hit()) return nullptr; busy_guard bg; void* p = aligned_alloc(i->obj_buf_alignment_and_mixin_offset, (i->obj_buf_size + 63) / 64 * 64); g_w->mixin_bufs[p] = i; return p; },
                [](void* p, const dnmx_mixin_info* i) { busy_guard bg; auto f = g_w->mixin_bufs.find(p); if (f == g_w->mixin_bufs.end() || f->second != i) mc::fail("wrong deallocation"); g_w->mixin_bufs.erase(f); free(p); });
            d = domain::from_c_handle(dnmx_create_domain(dnmx_sv::from_std("dom"), s, 17, this));
        }
        else {
            struct alc final : mixin_allocator {
                byte_t* alloc_mixin_buf(const mixin_info& i) override { void* p = aligned_alloc(i.obj_buf_alignment_and_mixin_offset, (i.obj_buf_size + 63) / 64 * 64); g_w->mixin_bufs[p] = &i; return static_cast<byte_t*>(p); }
                void dealloc_mixin_buf(byte_t* p, const mixin_info& i) noexcept override { auto f = g_w->mixin_bufs.find(p); if (f == g_w->mixin_bufs.end() || f->second != &i) mc::fail("wrong deallocation"); g_w->mixin_bufs.erase(f); free(p); }
            };
            ma = (new alc)->to_c_hanlde();
            d = new domain("dom", s, 17, this);
        }
        for (int i = 0; i < NF; ++i) { f[i] = dnmx_make_feature_info(); f[i].name = dnmx_sv::from_std(i ? "g" : "f"); }
        f[1].default_payload = reinterpret_cast<dnmx_feature_payload>(&f[1]);
        ps.emplace_back("a", 8, 8).feature(f[0], nullptr);
        ps.emplace_back("b", 24, 16).uses(*mixin_allocator::from_c_handle(ma));
        ps.emplace_back("c", 4, 4); ps.back().info.compare = nullptr; ps.back().info.copy_asgn = nullptr;
        ps.emplace_back("zz", 4, 4).info.init = nullptr;
        rule[0] = {dnmx_sv::from_std("b needs c"), [](dnmx_type_mutation_handle h, uintptr_t) -> dnmx_error_return_t {
            if (hit()) { if (g_kind == 2) throw std::runtime_error("planned"); if (g_kind == 3) throw 3; return 3; }
            auto t = type_mutation::from_c_handle(h);
            if (t->has(g_w->ps[1].info)) t->add_if_lacking(g_w->ps[2].info);
            return 0; }, 0, 0};
        rule[1] = {}; // without a function
        tc = {dnmx_sv::from_std("one"), [](dnmx_type_handle t) noexcept { return dnmx_type_num_mixins(t) == 1; }};
    }
    ~world() {
        for (auto x : o) { if (c) { if (x) dnmx_destroy_object(x->to_c_hanlde()); } else delete x; }
        if (c) { dnmx_destroy_domain(d->to_c_hanlde()); dnmx_destroy_mixin_allocator(ma); }
        else { delete d; delete mixin_allocator::from_c_handle(ma); }
        if (!mixin_bufs.empty()) mc::fail("mixin buffers left");
        g_w = nullptr;
    }
    mixin_info& mi(int i) { return ps[size_t(i)].info; }
    infos mis(const list& l) { busy_guard bg; infos r; for (int i : l) r.push_back(&mi(i)); return r; }
    static std::string nm(const infos& l) { return names(l); }
    static std::string okt(dnmx_type_handle t) { busy_guard bg; return "ok " + nt(type::from_c_handle(t)); }
    static std::string nt(const type* t) { return t ? names(type_mixins(*t)) : "none"; }
    template <typename I> static std::string ni(const I* i) { return i ? std::string(i->name.to_std()) + '#' + std::to_string(int(i->id.i)) : "none"; }
    object* self(int k) { return o[k]; }
    auto h(int k) { return o[k]->to_c_hanlde(); }
    auto dh() { return d->to_c_hanlde(); }

    // ---- complete observation of everything through this interface
    std::string observe(bool counts = true) {
        std::string s;
        auto add = [&](auto&&... x) { ((s += MC_STR(x)), ...); s += ' '; };
        for (int i = 0; i < NM; ++i) add(ni(c ? dnmx_get_mixin_info_by_id(dh(), dnmx_mixin_id{dnmx_id_int_t(i)}) : d->get_mixin_info(mixin_id{dnmx_id_int_t(i)})), mi(i).dom == dh() ? "+" : "-");
        for (int i = 0; i < NF; ++i) add(ni(c ? dnmx_get_feature_info_by_id(dh(), dnmx_feature_id{dnmx_id_int_t(i)}) : d->get_feature_info(feature_id{dnmx_id_int_t(i)})));
        for (auto& n : NAMES) {
            auto v = dnmx_sv::from_std(n);
            add(ni(c ? dnmx_get_mixin_info_by_name(dh(), v) : d->get_mixin_info(n)), ',', ni(c ? dnmx_get_feature_info_by_name(dh(), v) : d->get_feature_info(n)));
        }
        add((c ? dnmx_get_type_class_by_name(dh(), tc.name) : d->get_type_class("one")) == &tc, (c ? dnmx_get_type_class_by_name(dh(), dnmx_sv::from_std("x")) : d->get_type_class("x")) == nullptr);
        if (counts) add("types=", c ? dnmx_get_num_types(dh()) : d->num_types(), " rules=", d->num_mutation_rules(), " queries=", d->num_type_queries());
        add("empty type: ", nt(c ? type::from_c_handle(dnmx_get_empty_type(dh())) : &d->get_empty_type()));
        add((c ? dnmx_get_domain_name(dh()).to_std() : d->name()), c ? dnmx_get_domain_user_data(dh()) : d->user_data, (c ? dnmx_get_domain_context(dh()) : d->context) == this, c ? dnmx_get_domain_settings(dh()).allow_duplicate_feature_names : d->settings().allow_duplicate_feature_names);
        for (int k = 0; k < 2; ++k) {
            add("| object ", k);
            if (!o[k]) continue;
            auto& x = *o[k];
            const type* t = c ? type::from_c_handle(dnmx_object_get_type(h(k))) : &x.get_type();
            add(nt(t), c ? dnmx_object_num_mixins(h(k)) : x.num_mixins(), c ? dnmx_object_is_empty(h(k)) : x.empty(), c ? dnmx_object_is_sealed(h(k)) : x.sealed(), (c ? dnmx_object_get_domain(h(k)) : x.get_domain().to_c_hanlde()) == dh());
            add(c ? dnmx_type_num_mixins(t) : t->num_mixins(), "mixins");
            add("of", c ? dnmx_type_is_of(t, &tc) : t->is_of(tc));
            { bool r = false; if (c) r = dnmx_type_is_of_name(t, tc.name); else try { r = t->is_of("one"); } catch (dynamix::exception&) { r = false; } add(r); }
            add(c ? dnmx_type_num_objects(t) : t->num_objects(), "objects");
            add(c ? dnmx_type_is_default_constructible(t) : t->default_constructible(), c ? dnmx_type_is_copy_constructible(t) : t->copy_constructible(), c ? dnmx_type_is_copy_assignable(t) : t->copy_assignable(), c ? dnmx_type_is_copyable(t) : t->copyable(), c ? dnmx_type_is_equality_comparable(t) : t->equality_comparable(), c ? dnmx_type_is_comparable(t) : t->comparable());
            auto val = [&](const void* p) { return p ? T().val(p) : -1; };
            for (int i = 0; i < NM; ++i) {
                auto n = mi(i).name; std::string ns(n.to_std());
                add(c ? dnmx_object_has(h(k), &mi(i)) : x.has(mi(i)), c ? dnmx_object_has_by_name(h(k), n) : x.has(ns), val(c ? dnmx_object_get(h(k), &mi(i)) : x.get(mi(i))), ',', val(c ? dnmx_object_get_by_name(h(k), n) : x.get(ns)), ',', val(c ? dnmx_object_get_mut(h(k), &mi(i)) : x.get(mi(i))), ',', val(c ? dnmx_object_get_mut_by_name(h(k), n) : x.get(ns)));
                auto ix = mixin_index_t(i);
                add(val(c ? dnmx_object_get_at(h(k), ix) : x.get_at(ix)), ',', val(c ? dnmx_object_get_mut_at(h(k), ix) : x.get_at(ix)));
                add(c ? dnmx_type_has(t, &mi(i)) : t->has(mi(i)), c ? dnmx_type_has_by_name(t, n) : t->has(ns), c ? dnmx_type_index_of(t, &mi(i)) : t->index_of(mi(i).id), ',', c ? dnmx_type_index_of_name(t, n) : t->index_of(ns));
            }
            for (int i = 0; i < NF; ++i) {
                std::string ns(f[i].name.to_std());
                add(c ? dnmx_type_implements_strong(t, &f[i]) : t->implements_strong(f[i]), c ? dnmx_type_implements_strong_by_name(t, f[i].name) : t->implements_strong(ns), c ? dnmx_type_implements(t, &f[i]) : t->implements(f[i]));
                add(c ? dnmx_object_implements_strong(h(k), &f[i]) : t->implements_strong(f[i]), c ? dnmx_object_implements_strong_by_name(h(k), f[i].name) : t->implements_strong(ns));
            }
        }
        if (o[0] && o[1]) {
            add(c ? dnmx_object_equals(h(0), h(1)) : o[0]->equals(*o[1]));
            for (int k = 0; k < 2; ++k) {
                std::string r;
                if (c) { auto x = dnmx_object_compare(h(k), h(1 - k)); r = x.error ? "error" : std::to_string(x.result); }
                else try { r = std::to_string(o[k]->compare(*o[1 - k])); } catch (std::exception&) { r = "error"; }
                add("cmp=", r);
            }
        }
        return s;
    }
    // ---- operations: "ok...", "error" or "" (nothing was or could be done)
    template <typename F> static std::string cpp(F&& fn) { try { return fn(); } catch (std::exception&) { return "error"; } }
    static std::string rc(dnmx_error_return_t e) { busy_guard bg; return e ? "error" : "ok"; }
    static std::string made(bool e) { return e ? "ok" : "error"; }
    bool used(int m) { for (auto x : o) if (x && x->has(mi(m))) return true; return false; }
    template <typename MutF> std::string mutation(const type* from, MutF fn) { // a type mutation and the type it gives
        if (c) {
            auto mh = from ? dnmx_create_type_mutation_from_type(from) : dnmx_create_type_mutation_empty(dh());
            if (!mh) return "error";
            if (!fn(mh)) { dnmx_destroy_unused_type_mutation(mh); return "error"; }
            auto t = dnmx_get_type(dh(), &mh);
            if (mh) mc::fail("the mutation isn't consumed");
            return t ? okt(t) : "error";
        }
        return cpp([&] { auto mu = from ? type_mutation(*from) : type_mutation(*d); fn(mu.to_c_hanlde()); return "ok " + nt(&d->get_type(std::move(mu))); });
    }
    struct cfunc { static dnmx_error_return_t init(dnmx_mutate_func_args a) {
        if (hit()) { if (g_kind == 2) throw std::runtime_error("planned"); if (g_kind == 3) throw 3; return 3; }
        check(a); MC_CHECK(!a.source_type, "there is no source type of a new mixin");
        T().born(*a.info, a.mixin_buf, int(a.user_data)); return 0; }
        static void check(const dnmx_mutate_func_args& a) {
            busy_guard bg; auto tt = type::from_c_handle(a.target_type);
            MC_CHECK(tt && a.target_index < tt->num_mixins() && tt->mixins[a.target_index] == a.info, "the index in the target type isn't that of the mixin");
        }
        static dnmx_error_return_t update(dnmx_mutate_func_args a) {
            if (hit()) { if (g_kind == 2) throw std::runtime_error("planned"); if (g_kind == 3) throw 3; return 3; }
            check(a); busy_guard bg; auto st = type::from_c_handle(a.source_type);
            MC_CHECK(st && a.source_index < st->num_mixins() && st->mixins[a.source_index] == a.info, "the index in the source type isn't that of the mixin");
            g_w->updates += MC_STR(" update " << names({a.info}) << ' ' << nt(st) << a.source_index << "->" << nt(type::from_c_handle(a.target_type)) << a.target_index << " data " << a.user_data << " value " << T().val(a.mixin_buf));
            return 0; }
        static dnmx_error_return_t failing_update(dnmx_mutate_func_args) { return 5; } };

    std::string apply(int op, int x, int y) {
        bool C = c;
        switch (op) {
        case 0: return C ? rc(dnmx_register_mixin(dh(), &mi(x))) : cpp([&] { d->register_mixin(mi(x)); return "ok"; });
        case 1: if (used(x)) return ""; if (C) dnmx_unregister_mixin(dh(), &mi(x)); else try { d->unregister_mixin(mi(x)); } catch (domain_error&) {} return "done";
        case 2: return C ? rc(dnmx_register_feature(dh(), &f[x])) : cpp([&] { d->register_feature(f[x]); return "ok"; });
        case 3: if (C) dnmx_unregister_feature(dh(), &f[1]); else try { d->unregister_feature(f[1]); } catch (domain_error&) {} return "done";
        case 4: return C ? rc(dnmx_register_type_class(dh(), &tc)) : cpp([&] { d->register_type_class(tc); return "ok"; });
        case 5: if (C) dnmx_unregister_type_class(dh(), &tc); else d->unregister_type_class(tc); return "done";
        case 6: return C ? rc(dnmx_add_mutation_rule(dh(), &rule[x])) : cpp([&] { d->add_mutation_rule(rule[x]); return "ok"; });
        case 7: if (C) dnmx_remove_mutation_rule(dh(), &rule[0]); else d->remove_mutation_rule(rule[0]); return "done";
        case 8: { auto l = mis(LISTS[size_t(x)]); const type* t = nullptr; if (C) t = type::from_c_handle(dnmx_get_type_from_infos(dh(), l.data(), uint32_t(l.size()))); else try { t = &d->get_type(l); } catch (std::exception&) {} return t ? okt(t) : "error"; }
        case 9: if (C) dnmx_garbage_collect_types(dh()); else d->garbage_collect_types(); return "done";
        case 10: return mutation(nullptr, [&](dnmx_type_mutation_handle m) { auto l = mis(LISTS[size_t(x)]); if (C) return dnmx_type_mutation_set_mixins(m, l.data(), dnmx_mixin_index_t(l.size())); type_mutation::from_c_handle(m)->mixins.assign(l.begin(), l.end()); return true; });
        case 11: if (!o[x]) return ""; return mutation(&o[x]->get_type(), [&](dnmx_type_mutation_handle m) { if (C) return dnmx_type_mutation_add(m, &mi(y)); type_mutation::from_c_handle(m)->add(mi(y)); return true; });
        // objects
        case 12: if (o[x]) return ""; o[x] = C ? object::from_c_handle(dnmx_create_object_empty(dh())) : new object(*d); return made(o[x]);
        case 13: { if (o[x]) return ""; auto l = mis(LISTS[size_t(y)]); const type* t = type_for(l); if (!t) return ""; if (C) o[x] = object::from_c_handle(dnmx_create_object_default(t)); else try { o[x] = new object(*t); } catch (std::exception&) {} return made(o[x]); }
        case 14: if (o[x] || !o[1 - x]) return ""; if (C) o[x] = object::from_c_handle(dnmx_create_object_copy(h(1 - x))); else try { o[x] = new object(o[1 - x]->copy()); } catch (std::exception&) {} return made(o[x]);
        case 15: if (o[x] || !o[1 - x]) return ""; o[x] = C ? object::from_c_handle(dnmx_create_object_usurp(h(1 - x))) : new object(std::move(*o[1 - x])); return made(o[x]);
        case 16: if (!o[x]) return ""; if (C) dnmx_destroy_object(h(x)); else delete o[x]; o[x] = nullptr; return "done";
        case 17: if (!o[0] || !o[1]) return ""; return C ? rc(dnmx_object_copy_from(h(x), h(1 - x))) : cpp([&] { o[x]->copy_from(*o[1 - x]); return "ok"; });
        case 18: if (!o[x]) return ""; return C ? made(dnmx_object_clear(h(x))) : cpp([&] { o[x]->clear(); return "ok"; });
        case 19: { if (!o[x]) return ""; auto l = mis(LISTS[size_t(y)]); const type* t = type_for(l); if (!t) return ""; return C ? rc(dnmx_object_reset_type(h(x), t)) : cpp([&] { o[x]->reset_type(*t); return "ok"; }); }
        case 20: if (!o[x]) return ""; return C ? rc(dnmx_object_reset_type(h(x), nullptr)) : cpp([&] { o[x]->reset_type(); return "ok"; });
        case 21: if (!o[x]) return ""; if (C) dnmx_object_seal(h(x)); else o[x]->seal(); return "done";
        case 22: { // mutate
            if (!o[x]) return "";
            if (o[x]->sealed() && y >= 1 && y <= 3) return ""; // may lead to the same type (see below)
            auto N = [](const char* n) { return dnmx_sv::from_std(n); };
            using F = dnmx_mutate_func; F in = cfunc::init;
            switch (y) {
            case 0: { dnmx_mutate_op ops[] = {{dnmx_mutate_op_add, &mi(1), {}, nullptr, 0}}; return C ? rc(dnmx_mutate(h(x), ops, 1)) : cpp([&] { mutate(*o[x], dynamix::add(mi(1))); return "ok"; }); }
            case 1: { dnmx_mutate_op ops[] = {{dnmx_mutate_op_remove, nullptr, N("a"), nullptr, 0}, {dnmx_mutate_op_add, nullptr, N("c"), nullptr, 0}}; return C ? rc(dnmx_mutate(h(x), ops, 2)) : cpp([&] { mutate(*o[x], dynamix::remove("a"), dynamix::add("c")); return "ok"; }); }
            case 2: { dnmx_mutate_op ops[] = {{dnmx_mutate_op_to_back, &mi(0), {}, nullptr, 0}}; return C ? rc(dnmx_mutate(h(x), ops, 1)) : cpp([&] { mutate(*o[x], to_back(mi(0))); return "ok"; }); }
            case 3: { dnmx_mutate_op ops[] = {{dnmx_mutate_op_to_back, nullptr, N("a"), nullptr, 0}, {dnmx_mutate_op_remove, &mi(2), {}, nullptr, 0}}; return C ? rc(dnmx_mutate(h(x), ops, 2)) : cpp([&] { mutate(*o[x], to_back("a"), dynamix::remove(mi(2))); return "ok"; }); }
            case 4: { dnmx_mutate_op ops[] = {{dnmx_mutate_op_add, &mi(0), {}, in, 555}}; return C ? rc(dnmx_mutate(h(x), ops, 1)) : cpp([&] { mutate(*o[x], add_mixin_op_with_func_by_info<give<555>>(mi(0), give<555>{})); return "ok"; }); }
            case 5: { dnmx_mutate_op ops[] = {{dnmx_mutate_op_add, nullptr, N("zz"), in, 555}}; return C ? rc(dnmx_mutate(h(x), ops, 1)) : cpp([&] { mutate(*o[x], add_mixin_op_with_func_by_name<give<555>>("zz", give<555>{})); return "ok"; }); }
            case 6: { dnmx_mutate_op ops[] = {{dnmx_mutate_op_add, nullptr, N("?"), nullptr, 0}}; return C ? rc(dnmx_mutate(h(x), ops, 1)) : cpp([&] { mutate(*o[x], dynamix::add("?")); return "ok"; }); }
            }
            return ""; }
        case 23: { // mutate_to
            if (!o[x]) return "";
            auto l = mis(LISTS[size_t(y)]); const type* t = type_for(l); if (!t) return "";
            if (o[x]->sealed() && t == &o[x]->get_type()) return ""; // C++ has nothing to do, C could update common mixins: not comparable
            if (C) { dnmx_mutate_to_override ov[] = {{nullptr, dnmx_sv::from_std("zz"), cfunc::init, nullptr, 777}, {&mi(0), {}, cfunc::init, nullptr, 777}}; return rc(dnmx_mutate_to(h(x), t, ov, 2)); }
            return cpp([&] { mutate_to(*o[x], *t, object_mutate_op_with_func<give<777>>(mi(3), give<777>{}), object_mutate_op_with_func<give<777>>(mi(0), give<777>{})); return "ok"; }); }
        case 24: { int v = 0; if (o[x] && o[x]->has(mi(0))) T().set(o[x]->get(mi(0)), v = 1000 + int(obs.size())); return v ? "done" : ""; }
        case 25: if (C) { dnmx_set_domain_user_data(dh(), 99); dnmx_set_domain_context(dh(), f); } else { d->user_data = 99; d->context = f; } return "done";
        case 26: { // mutate_to with updates of common mixins; 1: fails when a is common, 2: the function for new mixins is given as well
            if (!o[x]) return "";
            auto l = mis(LISTS[y % 2 ? 3 : 5]); const type* t = type_for(l); if (!t) return "";
            updates.clear(); auto upd = y / 2 == 1 ? cfunc::failing_update : cfunc::update; auto ini = y / 2 == 2 ? cfunc::init : nullptr;
            std::string r;
            if (C) { dnmx_mutate_to_override ov[] = {{&mi(0), {}, ini, upd, 31}, {nullptr, dnmx_sv::from_std("b"), ini, cfunc::update, 32}, {nullptr, dnmx_sv::from_std("a"), nullptr, nullptr, 33}}; r = rc(dnmx_mutate_to(h(x), t, ov, 3)); }
            else r = cpp([&] {
                object_mutation mut(*o[x], *t);
                for (mixin_index_t i = 0; i < t->num_mixins(); ++i) for (int k = 0; k < 2; ++k) if (t->mixins[i] == &mi(k)) mut.update_at(i,
                    [&](init_new_args a) { if (ini) T().born(a.info, a.mixin_buf, 31 + k); else util::default_init_new_func(a); },
                    [&](update_common_args a) { if ((k ? cfunc::update : upd)({&a.info, a.mixin_buf, &a.target_type, &a.source_type, a.target_index, a.source_index, uintptr_t(31 + k)})) throw std::runtime_error("planned"); });
                return "ok"; });
            busy_guard bg; return r == "ok" ? r + updates : r; }
        case 27: { // add if lacking
            if (!o[x]) return "";
            std::string how;
            auto r = mutation(&o[x]->get_type(), [&](dnmx_type_mutation_handle m) {
                auto& tm = *type_mutation::from_c_handle(m);
                bool had = tm.has(mi(y)), got = C ? dnmx_type_mutation_add_if_lacking(m, &mi(y)) : tm.add_if_lacking(mi(y));
                if (!had && !got && g_fired) return false;
                MC_CHECK(got == !had && tm.has(mi(y)), "add_if_lacking of " << mi(y).name.to_std() << " to " << (had ? "one with it" : "one without it") << " gives " << got);
                how = got ? " added" : " there already"; return true; });
            busy_guard bg; return r.substr(0, 2) == "ok" ? r + how : r; }
        }
        return "";
    }
    const type* type_for(const infos& l) { int keep = g_left; g_left = -1; const type* t = nullptr; try { t = &d->get_type(l); } catch (std::exception&) {} g_left = keep; return t; }
};
struct opn { int op, x, y; };
std::vector<opn> alphabet(bool domain_ops, bool object_ops) {
    std::vector<opn> r;
    auto X = [&](int op, int nx, int ny = 1) { for (int x = 0; x < nx; ++x) for (int y = 0; y < ny; ++y) r.push_back({op, x, y}); };
    if (domain_ops) { X(0, 3); X(1, 3); X(2, 2); X(3, 1); X(4, 1); X(5, 1); X(6, 2); X(7, 1); X(8, 8); X(9, 1); r.push_back({10, 3, 0}); r.push_back({10, 6, 0}); X(25, 1); }
    if (object_ops) {
        for (int y : {0, 1, 5, 7}) r.push_back({13, 0, y});
        X(12, 2); X(11, 1, 3); r.push_back({13, 1, 3}); X(14, 2); X(15, 2); X(16, 2); X(17, 2); X(18, 1); for (int y : {0, 2, 3, 4}) r.push_back({19, 0, y}); X(20, 1); X(21, 1); X(22, 1, 7); r.push_back({22, 1, 4}); for (int y : {1, 5, 7}) r.push_back({23, 0, y}); X(24, 2); X(26, 1, 6); X(27, 1, 3);
        if (!domain_ops) { r.push_back({9, 0, 0}); r.push_back({6, 0, 0}); r.push_back({7, 0, 0}); r.push_back({8, 3, 0}); }
    }
    return r;
}
// worlds the sequences start from
void prepare(world& w, int start) {
    auto go = [&](int op, int x, int y) { w.apply(op, x, y); };
    if (start >= 1) for (int i = 0; i < NM; ++i) go(0, i, 0);
    if (start >= 2) { go(4, 0, 0); go(13, 0, start == 2 ? 1 : 3); }
    if (start >= 3) { go(14, 1, 0); go(24, 0, 0); go(6, 0, 0); }
    if (start >= 4) { go(21, 0, 0); }
    w.obs.clear();
}

void differential(int from, int to, bool dops, bool oops, int depth, bool merge) {
    static std::map<int, std::vector<opn>> al; auto& a = al[dops + 2 * oops]; if (a.empty()) a = alphabet(dops, oops);
    world_guard wg;
    std::vector<opn> seq; int start = from + mc::choose(to - from + 1);
    for (int i = 0; i < depth; ++i) {
        int k = mc::choose(int(a.size()) + 1); if (mc::pruned()) return;
        if (k == int(a.size())) break;
        seq.push_back(a[size_t(k)]);
        if (merge && i + 1 < depth) { // merge equal states
            world w(true); prepare(w, start); std::string r; for (auto& s : seq) r = w.apply(s.op, s.x, s.y);
            if (r.empty()) return; // has no effect here
            if (!mc::visit(w.observe(), depth - i)) return;
        }
    }
    if (mc::pruned()) return;
    std::vector<std::string> obs[2];
    for (int c = 0; c < 2; ++c) {
        world w(c); prepare(w, start);
        w.obs.push_back(w.observe());
        for (auto& s : seq) {
            auto r = w.apply(s.op, s.x, s.y);
            if (r.empty()) { w.obs.push_back(r); continue; }
            r += " -> " + w.observe();
            w.obs.push_back(r);
        }
        obs[c] = w.obs;
    }
    MC_LOG("start: " << obs[0][0]);
    MC_CHECK(obs[0][0] == obs[1][0], "the interfaces differ at the start: C++: " << obs[0][0] << " C: " << obs[1][0]);
    for (size_t i = 0; i < seq.size(); ++i) {
        MC_STEP("op " << seq[i].op << '(' << seq[i].x << ',' << seq[i].y << ") " << obs[0][i + 1]);
        MC_CHECK(obs[0][i + 1] == obs[1][i + 1], "the interfaces differ after op " << seq[i].op << '(' << seq[i].x << ',' << seq[i].y << "):\nC++: " << obs[0][i + 1] << "\nC:   " << obs[1][i + 1]);
        if (obs[0][i + 1].size()) mc::outcome(obs[0][i + 1]);
    }
}

// every failure point of an operation through the C interface, after every prefix
void failures(int from, int to, bool dops, bool oops, int depth) {
    static std::map<int, std::vector<opn>> al; auto& a = al[dops + 2 * oops]; if (a.empty()) a = alphabet(dops, oops);
    world_guard wg;
    int start = from + mc::choose(to - from + 1); std::vector<opn> seq;
    for (int i = 0; i < depth; ++i) seq.push_back(a[size_t(mc::choose(int(a.size())))]);
    int kind = 1 + mc::choose(3);
    if (mc::pruned()) return;
    struct disarm { ~disarm() { g_left = -1; def_res().fault = nullptr; T().fault = nullptr; } } da;
    for (int k = 0;; ++k) {
        world w(true); prepare(w, start);
        std::string r; bool last = false;
        for (size_t i = 0; i < seq.size(); ++i) {
            auto& s = seq[i];
            if (i + 1 < seq.size()) { if (w.apply(s.op, s.x, s.y).empty()) return; continue; }
            std::string before = w.observe(false); // a type may have been created before the failure
            void* addr[2][NM] = {}; for (int x = 0; x < 2; ++x) if (w.o[x]) for (int m = 0; m < NM; ++m) addr[x][m] = w.o[x]->get(w.mi(m));
            def_res().fault = fault_alloc; T().fault = fault_fn; g_kind = kind; g_fired = g_fired_alloc = false; g_left = k;
            try { r = w.apply(s.op, s.x, s.y); }
            catch (...) { g_left = -1; mc::fail(MC_STR("an exception left a C function: op " << s.op << '(' << s.x << ',' << s.y << ") failure " << k << " of kind " << kind)); }
            g_left = -1; def_res().fault = nullptr; T().fault = nullptr;
            MC_STEP("op " << s.op << '(' << s.x << ',' << s.y << ") failure " << k << (g_fired ? " injected: " : " not reached: ") << r);
            if (!g_fired) { last = true; break; }
            if (r == "done") { MC_CHECK(w.observe(false) == before, "a failing operation changed something"); continue; } // has no result: an operation which wouldn't have done anything anyway
            if (r != "error" && g_fired_alloc) { // done without the memory: then it's done entirely
                std::string after = w.observe(false), r2;
                { world w2(true); prepare(w2, start); for (auto& t : seq) r2 = w2.apply(t.op, t.x, t.y);
                MC_EQ(r, r2, "op " << s.op << '(' << s.x << ',' << s.y << ") goes on after a failure of allocation " << k << " but its result isn't the usual one");
                MC_EQ(after, w2.observe(false), "op " << s.op << '(' << s.x << ',' << s.y << ") goes on after a failure of allocation " << k << " but doesn't do the usual"); }
                g_w = &w; continue;
            }
            MC_EQ(r, std::string("error"), "a failure inside op " << s.op << '(' << s.x << ',' << s.y << ") isn't reported");
            if (s.op != 17) {
                // registration of a mixin may leave its features registered
                std::string after = w.observe(false);
                if (s.op != 0) MC_CHECK(after == before, "a failed operation changed something: op " << s.op << '(' << s.x << ',' << s.y << ") failure " << k << "\nbefore: " << before << "\nafter:  " << after);
                for (int x = 0; x < 2; ++x) if (w.o[x]) for (int m = 0; m < NM; ++m) MC_CHECK(addr[x][m] == w.o[x]->get(w.mi(m)), "a failed operation moved a mixin");
            }
            else MC_CHECK(type_mixins(w.o[s.x]->get_type()) == type_mixins(w.o[s.x]->get_type()), "type");
            auto again = w.apply(s.op, s.x, s.y);
            mc::outcome(MC_STR(s.op << again));
        }
        if (last) return;
    }
}
// failures while domains and allocators are created
void creation_failures() {
    int what = mc::choose(2); if (mc::pruned()) return;
    world_guard wg;
    for (int k = 0;; ++k) {
        def_res().fault = fault_alloc; g_fired = false; g_left = k;
        bool made = false;
        try {
            if (what == 0) { domain_settings s{}; s.canonicalize_types = true; auto h = dnmx_create_domain(dnmx_sv::from_std("x"), s, 0, nullptr); g_left = -1; made = h; if (h) dnmx_destroy_domain(h); }
            else { auto h = dnmx_create_mixin_allocator([](const dnmx_mixin_info*) -> void* { return nullptr; }, [](void*, const dnmx_mixin_info*) {}); g_left = -1; made = h; if (h) dnmx_destroy_mixin_allocator(h); }
        }
        catch (...) { g_left = -1; mc::fail("an exception left a C function"); }
        g_left = -1; def_res().fault = nullptr;
        MC_STEP("create " << what << " failure " << k << (g_fired ? " injected" : " not reached"));
        MC_CHECK(made || g_fired, "result");
        if (!g_fired) break;
    }
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("domain/all-sequences", [] { differential(0, 2, true, false, pick(2, 3), false); });
        mc::section("domain/all-states", [] { differential(0, 2, true, false, pick(3, 4), true); });
        mc::section("objects/all-sequences", [] { differential(1, 4, false, true, 2, false); });
        mc::section("objects/all-states", [] { differential(1, 4, false, true, pick(3, 4), true); });
        mc::section("failures/domain", [] { failures(0, 2, true, false, pick(1, 2)); });
        mc::section("failures/objects", [] { failures(1, 4, false, true, pick(2, 3)); });
        mc::section("failures/creation", [] { creation_failures(); });
        mc::section("many-mixins", [] { wide::c_types(mc::pick(257, 513)); });
    });
}
