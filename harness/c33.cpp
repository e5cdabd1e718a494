// Static definitions: every order of initialization of the translation units which define things by the macros, and every sequence of
// loading, using and unloading plugins. Each execution runs in a process of its own, up to the destructors at its exit.
#define C33_V1
#include "c33_res.hpp"
#include "c33_plugin.hpp"
#include <dynamix/mutate.hpp>
#include <dynamix/type_class.hpp>
#include <algorithm>
#include <dlfcn.h>
#include <link.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace kit;

// the initializers of the translation units (their .init_array sections, renamed)
using initializer = void (*)(int, char**, char**);
#define UNIT(n) extern "C" initializer __start_init_tu##n[] __attribute__((visibility("hidden"))); extern "C" initializer __stop_init_tu##n[] __attribute__((visibility("hidden")))
UNIT(0); UNIT(1); UNIT(2); UNIT(3); UNIT(4); UNIT(5); UNIT(6); UNIT(7); UNIT(8); UNIT(9); UNIT(10);

static res& memory() { static auto r = new res("domain"); return *r; }
base_resource& domain_memory() { return memory(); }

namespace {
enum { units = 7, all_units = 11 };
const char* unit_name(int u) { static const char* n[] = {"domain", "messages", "message with a default", "alpha", "beta", "gamma", "type class", "v1 messages", "v1 first mixin", "v1 second mixin", "v1 type class"}; return n[u]; }
void run_unit(int u) {
    initializer* b; initializer* e;
#define U(n) case n: b = __start_init_tu##n; e = __stop_init_tu##n; break;
    switch (u) { U(0) U(1) U(2) U(3) U(4) U(5) U(6) U(7) U(8) U(9) default: U(10) }
    char* none[] = {nullptr};
    for (; b != e; ++b) (*b)(0, none, none);
}
bool g_v1;           // units of the compatibility layer
int g_look;          // bit u: the unit's watcher uses the domain
std::vector<int> g_done; // units in the order of their initialization
const char* gamma_name = "gamma which is attached";

using names = std::set<std::string>;
std::string show(const names& n) { std::string s; for (auto& x : n) s += x + ","; return s; }
struct contents { names mixins, features, rules, classes; };
void add_unit(contents& c, int u) {
    switch (u) {
    case 3: c.mixins.insert("alpha"); c.features.insert({"value_msg", "visit_msg"}); c.rules.insert("alpha also_adds<0>"); break;
    case 4: c.mixins.insert("beta"); c.features.insert({"visit_msg", "name_msg"}); break;
    case 5: c.mixins.insert(gamma_name); c.features.insert({"visit_msg"}); c.rules.insert(std::string(gamma_name) + " attaches_to<0>"); break;
    case 6: c.classes.insert("full"); break;
    case 8: c.mixins.insert("v1_first"); c.features.insert("v1_visit"); break;
    case 9: c.mixins.insert("the second"); c.features.insert({"v1_visit", "v1_value"}); break;
    case 10: c.classes.insert("v1_both"); break;
    }
}
std::vector<std::pair<uintptr_t, uintptr_t>> g_gone; // where unloaded plugins were
bool gone(const void* p) { for (auto& r : g_gone) if (uintptr_t(p) >= r.first && uintptr_t(p) < r.second) return true; return false; }
bool g_known_dangling; // "the message of a plugin stays in the domain when the plugin is unloaded" (KNOWN_FINDINGS.txt)
// what the domain has
void check_contents(domain& d, const contents& c, const names& more_features, const char* when) {
    contents got;
    // the domain isn't to be asked while it's traversed (its locks are not recursive)
    std::vector<const mixin_info*> mixins, of_types;
    domain_traverse(d).traverse_mixins([&](const mixin_info& i) { mixins.push_back(&i); });
    domain_traverse(d).traverse_types([&](const type& x) { of_types.insert(of_types.end(), x.mixins.begin(), x.mixins.end()); });
    for (auto pi : mixins) {
        auto& i = *pi;
        MC_CHECK(!gone(&i), when << ": the domain has a mixin of an unloaded plugin");
        MC_CHECK(!gone(i.name.begin), when << ": a mixin of the domain has a name in an unloaded plugin");
        MC_CHECK(got.mixins.insert(std::string(i.name.to_std())).second, when << ": mixin twice");
        MC_CHECK(i.dom == d.to_c_hanlde() && d.get_mixin_info(i.id) == &i && d.get_mixin_info(i.name.to_std()) == &i, when << ": registration of mixin " << i.name.to_std());
        MC_CHECK(i.init && i.size, when << ": functions and size of mixin " << i.name.to_std());
        for (auto& f : i.features_span()) {
            MC_CHECK(!gone(f.info), when << ": a mixin has a message of an unloaded plugin");
            MC_CHECK(d.get_feature_info(f.info->id) == f.info, when << ": message " << f.info->name.to_std() << " of mixin " << i.name.to_std() << " isn't registered");
            MC_CHECK(f.payload != nullptr, when << ": payload of a message");
        }
    }
    int dangling = 0;
    domain_traverse(d).traverse_features([&](const feature_info& f) {
        if (gone(&f)) {
            if (g_known_dangling) { ++dangling; return; }
            mc::fail(MC_STR(when << ": the domain has a message of an unloaded plugin"));
        }
        MC_CHECK(got.features.insert(std::string(f.name.to_std())).second, when << ": message twice");
    });
    MC_CHECK(dangling <= int(g_known_dangling), when << ": " << dangling << " messages of unloaded plugins");
    if (dangling) MC_LOG("  the message of the unloaded plugin is still in the domain (known finding)");
    for (auto& n : got.features) if (!dangling) MC_CHECK(d.get_feature_info(n) && d.get_feature_info(n)->name == dnmx_sv::from_std(n), when << ": message " << n << " by name");
    domain_traverse(d).traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t n) {
        MC_CHECK(!gone(&r) && !gone(r.name.begin) && !gone((const void*)r.apply), when << ": the domain has a rule of an unloaded plugin");
        MC_CHECK(got.rules.insert(std::string(r.name.to_std())).second && n == 1, when << ": rule twice");
    });
    domain_traverse(d).traverse_type_classes([&](const type_class& x) {
        MC_CHECK(!gone(&x) && !gone((const void*)x.matches), when << ": the domain has a type class of an unloaded plugin");
        got.classes.insert(std::string(x.name.to_std()));
    });
    for (auto i : of_types) { MC_CHECK(!gone(i), when << ": the domain has a type with a mixin of an unloaded plugin"); MC_CHECK(d.get_mixin_info(i->id) == i, when << ": the domain has a type with a mixin which isn't registered"); }
    domain_traverse(d).traverse_type_queries([&](itlib::span<const mixin_info* const> q, const type&) { for (auto i : q) MC_CHECK(!gone(i), when << ": the domain remembers a request with a mixin of an unloaded plugin"); });
    // the domain has rules of its own
    for (auto it = got.rules.begin(); it != got.rules.end();) { bool ours = false; for (auto m : {"alpha", "beta", "gamma", "plug_", "v1_", "the second"}) if (it->rfind(m, 0) == 0) ours = true; if (ours) ++it; else it = got.rules.erase(it); }
    MC_EQ(show(got.mixins), show(c.mixins), when << ": mixins");
    auto f = c.features; f.insert(more_features.begin(), more_features.end());
    MC_EQ(show(got.features), show(f), when << ": messages");
    MC_EQ(show(got.rules), show(c.rules), when << ": rules");
    MC_EQ(show(got.classes), show(c.classes), when << ": type classes");
}
names g_ever; // messages which were registered once: they stay
void check_units(const char* when) {
    contents c; bool v1 = false;
    for (int u : g_done) add_unit(c, u);
    v1 = g_v1;
    g_ever.insert(c.features.begin(), c.features.end());
    auto& d = v1 ? v1compat::domain::instance() : g::get_domain<app>();
    MC_EQ(d.name(), std::string_view(v1 ? "v1compat" : "app"), when << ": name of the domain");
    MC_EQ(d.user_data, uintptr_t(v1 ? 0 : 4242), when << ": user data of the domain");
    check_contents(d, c, g_ever, when);
}

std::vector<std::string> visited(app_obj& o) { strings s; visit(o, s); std::sort(s.begin(), s.end()); return s; }
template <typename F> int or_error(F&& f) { try { return f(); } catch (feature_error&) { return -100; } }

// run in a process of its own
void in_child(const std::function<void()>& f) {
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) {
        atexit([] { // after everything which was constructed later is destroyed
            memory().check_empty("the exit of the program");
        });
        try { f(); } catch (std::exception& e) { mc::fail(std::string("unexpected exception: ") + e.what()); }
        exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77); // its message is ours
    if (!WIFEXITED(st) || WEXITSTATUS(st)) mc::fail(WIFSIGNALED(st) ? MC_STR("the program was killed by signal " << WTERMSIG(st)) : MC_STR("the program exited with status " << WEXITSTATUS(st) << " (error of a sanitizer or of the destructors)"));
}

// the whole program: objects, messages, rules, type classes
void check_program() {
    auto& d = g::get_domain<app>();
    MC_CHECK((const void*)&value_msg::info == (const void*)&value_msg::get_info_safe() && value_msg::info.id != invalid_feature_id, "value_msg");
    MC_CHECK((const void*)&visit_msg::info == (const void*)&visit_msg::get_info_safe() && visit_msg::info.id != invalid_feature_id, "visit_msg");
    MC_CHECK((const void*)&name_msg::info == (const void*)&name_msg::get_info_safe() && name_msg::info.id != invalid_feature_id, "name_msg");
    MC_CHECK(d.get_mixin_info("alpha") == &g::get_mixin_info<alpha>() && d.get_mixin_info("beta") == &g::get_mixin_info<beta>() && d.get_mixin_info(gamma_name) == &g::get_mixin_info<gamma_mixin>(), "mixins by class");
    app_obj o;
    MC_EQ(name_of(o, 3), std::string("none 3"), "default implementation");
    MC_EQ(or_error([&] { return value_msg::call(o); }), -100, "message without implementation");
    mutate(o, dynamix::add<beta>());
    MC_EQ(name_of(o, 4), std::string("beta 4"), "message of beta");
    MC_CHECK(visited(o) == (strings{"beta"}) && !o.get_type().is_of<full>(), "object with beta");
    mutate(o, dynamix::add<alpha>());
    MC_EQ(o.get_type().num_mixins(), 3u, "mixins with alpha");
    MC_CHECK(visited(o) == (strings{"alpha", "beta", "gamma"}), "object with alpha");
    MC_CHECK(o.get_type().is_of<full>() && o.get_type().is_of("full"), "type class");
    MC_EQ(or_error([&] { return value_msg::call(o); }), 5, "message of alpha");
    app_obj p; mutate(p, dynamix::add<alpha>());
    MC_CHECK(&p.get_type() == &o.get_type(), "types of equal objects");
}
}

watcher::watcher(int tu) : tu(tu) { if (g_look >> tu & 1) check_units("at the beginning of a unit"); }
watcher::~watcher() {
    // what was initialized later is destroyed by now, what was initialized before isn't
    while (!g_done.empty() && g_done.back() != tu) g_done.pop_back();
    if (!g_done.empty()) g_done.pop_back();
    if (g_look >> tu & 1) { MC_LOG("destructors up to: " << unit_name(tu)); check_units("at the end of a unit"); }
}

namespace {
void check_v1_program() {
    v1compat::object o;
    MC_EQ(v1_value(o), 1, "default implementation");
    v1compat::mutate(o).add<v1_first>();
    strings s; v1_visit(o, s); MC_CHECK(s == strings{"first"}, "object with one mixin");
    MC_CHECK(!o.is_a<v1_both>(), "type class");
    v1compat::mutate(o).add<v1_second>();
    s.clear(); v1_visit(o, s); MC_CHECK(s == strings{"second"}, "object with two mixins: only the higher bid gets the message");
    MC_EQ(v1_value(o), 2, "implementation");
    MC_CHECK(o.is_a<v1_both>(), "type class");
    MC_CHECK(v1compat::domain::instance().get_mixin_info("the second") == &g::get_mixin_info<v1_second>(), "mixin by class");
}
void orders(int first, int end, int checks) {
    bool v1 = first >= units;
    std::vector<int> order, rest; for (int i = first; i < end; ++i) rest.push_back(i);
    if (!mc::thorough && !v1) rest.erase(rest.begin()); // the unit of the domain has nothing to initialize: it is only moved around in the thorough tier
    while (!rest.empty()) { int k = mc::choose(int(rest.size())); order.push_back(rest[size_t(k)]); rest.erase(rest.begin() + k); }
    int look = mc::choose(4), between = mc::choose(checks);
    if (mc::pruned()) return;
    std::string s; for (int u : order) s += std::string(unit_name(u)) + ", ";
    static const char* l[] = {"nobody looks", "everybody looks", "the first unit looks", "the second unit looks"};
    MC_STEP("order: " << s << l[look] << (between ? ", the domain is looked at in between" : ""));
    in_child([&] {
        g_v1 = v1;
        g_look = look == 0 ? 0 : look == 1 ? 2047 : 1 << order[size_t(look - 2)];
        for (int u : order) {
            MC_LOG("initialize " << unit_name(u));
            run_unit(u); g_done.push_back(u);
            if (between) check_units("after a unit");
        }
        if (v1) check_v1_program(); else check_program();
        check_units("in the program");
        if (between) (v1 ? v1compat::domain::instance() : g::get_domain<app>()).garbage_collect_types();
        MC_LOG("exit");
    });
    mc::outcome(s + char('0' + look));
}
// ---------------------------------------------------------------- plugins
enum { p_a, p_mod, p_b, p_c, p_d };
const char* plugin_name(int k) { static const char* n[] = {"a", "a (modified)", "b (attached to alpha, with a type class)", "c (with a message)", "d (with a message which stays)"}; return n[k]; }
std::string plugin_path(int k) {
    char b[4096]; auto n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0;
    std::string s = b; return s.substr(0, s.size() - 4) + "_plugin" + std::to_string(k) + ".so"; // .exe
}
// model
enum { m_alpha, m_beta, m_gamma, m_a, m_b, m_c, m_count };
using mset = std::set<int>;
struct pmodel {
    bool loaded[5] = {};
    std::vector<mset> objs;
    std::vector<int> alive; // the variant of a which made the mixin of the object doesn't matter: it must leave before
    std::set<mset> types;
    bool has_a() const { return loaded[p_a] || loaded[p_mod]; }
    mset settle(mset s) const {
        s.erase(m_gamma); s.erase(m_b);
        if (s.count(m_alpha)) { s.insert(m_beta); s.insert(m_gamma); if (loaded[p_b]) s.insert(m_b); }
        if (s.count(m_a)) s.insert(m_beta);
        return s;
    }
    int mixin_of(int k) const { return k == p_a || k == p_mod ? m_a : k == p_b ? m_b : m_c; }
    bool can_load(int k) const { if (loaded[k]) return false; if (k <= p_mod) return !has_a(); if (k >= p_c) return !loaded[p_c] && !loaded[p_d]; return true; }
    bool can_unload(int k) const { if (!loaded[k]) return false; for (auto& o : objs) if (o.count(mixin_of(k))) return false; return true; }
    void mutate(int o, int m) {
        auto s = objs[size_t(o)]; if (s.count(m)) s.erase(m); else s.insert(m);
        objs[size_t(o)] = settle(s);
        if (!objs[size_t(o)].empty()) types.insert(objs[size_t(o)]);
    }
    void unload(int k) { loaded[k] = false; for (auto it = types.begin(); it != types.end();) if (it->count(mixin_of(k))) it = types.erase(it); else ++it; }
    void collect() { for (auto it = types.begin(); it != types.end();) if (std::find(objs.begin(), objs.end(), *it) == objs.end()) it = types.erase(it); else ++it; }
    std::string key() const { std::string s; for (bool l : loaded) s += l ? '1' : '0'; for (auto& o : objs) { s += '|'; for (int m : o) s += char('a' + m); } for (auto& t : types) { s += ';'; for (int m : t) s += char('a' + m); } return s; }
};
enum { a_load, a_unload, a_alpha, a_plug, a_collect };
struct action { int what, arg, obj; };
std::vector<action> enabled(const pmodel& m, const std::vector<int>& plugins) {
    std::vector<action> r;
    for (int k : plugins) { if (m.can_load(k)) r.push_back({a_load, k, 0}); if (m.can_unload(k)) r.push_back({a_unload, k, 0}); }
    for (int o = 0; o < int(m.objs.size()); ++o) {
        r.push_back({a_alpha, 0, o});
        for (int k : plugins) if (m.loaded[k] && k != p_b) r.push_back({a_plug, k, o});
    }
    r.push_back({a_collect, 0, 0});
    return r;
}
std::string text(const action& a) {
    switch (a.what) {
    case a_load: return MC_STR("load plugin " << plugin_name(a.arg));
    case a_unload: return MC_STR("unload plugin " << plugin_name(a.arg));
    case a_alpha: return MC_STR("add or remove alpha of object " << a.obj);
    case a_plug: return MC_STR("add or remove the mixin of plugin " << plugin_name(a.arg) << " of object " << a.obj);
    default: return "collect types";
    }
}
void apply(pmodel& m, const action& a) {
    switch (a.what) {
    case a_load: m.loaded[a.arg] = true; break;
    case a_unload: m.unload(a.arg); break;
    case a_alpha: m.mutate(a.obj, m_alpha); break;
    case a_plug: m.mutate(a.obj, m.mixin_of(a.arg)); break;
    default: m.collect();
    }
}
struct loaded_plugin {
    void* h = nullptr;
    decltype(&::enter) enter; decltype(&::leave) leave; decltype(&::info) info; decltype(&::own) own;
    std::pair<uintptr_t, uintptr_t> range;
};
struct range_query { const char* name; std::pair<uintptr_t, uintptr_t> r; };
void load(loaded_plugin& p, int k) {
    auto path = plugin_path(k);
    p.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!p.h) mc::fail(MC_STR("a plugin can't be loaded: " << dlerror()));
    p.enter = (decltype(p.enter))dlsym(p.h, "enter"); p.leave = (decltype(p.leave))dlsym(p.h, "leave"); p.info = (decltype(p.info))dlsym(p.h, "info"); p.own = (decltype(p.own))dlsym(p.h, "own");
    range_query q{((link_map*)p.h)->l_name, {UINTPTR_MAX, 0}};
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* v) {
        auto& q = *(range_query*)v;
        if (strcmp(i->dlpi_name, q.name) == 0) for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            q.r.first = std::min(q.r.first, uintptr_t(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr)); q.r.second = std::max(q.r.second, uintptr_t(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz));
        }
        return 0;
    }, &q);
    p.range = q.r;
    MC_CHECK(p.range.first < p.range.second, "harness: range of a plugin");
    for (size_t i = 0; i < g_gone.size();) if (g_gone[i].first < p.range.second && p.range.first < g_gone[i].second) g_gone.erase(g_gone.begin() + long(i)); else ++i;
}
void unload(loaded_plugin& p, int k) {
    dlclose(p.h);
    if (dlopen(plugin_path(k).c_str(), RTLD_NOW | RTLD_NOLOAD)) { fprintf(stderr, "harness: the plugin wasn't unloaded\n"); _exit(2); }
    p.h = nullptr; g_gone.push_back(p.range);
}
void check_plugins(const pmodel& m, loaded_plugin* ps, app_obj* os, const char* when) {
    contents c; for (int u = 0; u < units; ++u) add_unit(c, u);
    for (int k = 0; k < 5; ++k) if (m.loaded[k]) {
        if (k <= p_mod) { c.mixins.insert("plug_a"); c.rules.insert("plug_a also_adds<0>"); }
        if (k == p_b) { c.mixins.insert("plug_b"); c.rules.insert("plug_b attaches_to<0>"); c.classes.insert("plug_tc"); }
        if (k >= p_c) { c.mixins.insert("plug_c"); c.features.insert("own_msg"); }
    }
    auto& d = g::get_domain<app>();
    check_contents(d, c, {}, when);
    auto index = [&](const mixin_info& i) -> int {
        auto n = i.name.to_std();
        return n == "alpha" ? m_alpha : n == "beta" ? m_beta : n == gamma_name ? m_gamma : n == "plug_a" ? m_a : n == "plug_b" ? m_b : m_c;
    };
    std::set<mset> types;
    domain_traverse(d).traverse_types([&](const type& t) { mset s; for (auto i : t.mixins) s.insert(index(*i)); if (!s.empty()) MC_CHECK(types.insert(s).second, when << ": two types with the same mixins in a domain with canonical types"); });
    MC_EQ(types.size(), m.types.size(), when << ": number of types");
    MC_CHECK(types == m.types, when << ": types");
    for (int k = 0; k < 5; ++k) if (m.loaded[k]) MC_CHECK(ps[k].info()->dom == d.to_c_hanlde() && d.get_mixin_info(ps[k].info()->name.to_std()) == ps[k].info(), when << ": mixin of a plugin");
    for (size_t i = 0; i < m.objs.size(); ++i) {
        auto& o = os[i]; auto& s = m.objs[i];
        mset got; for (auto x : o.get_type().mixins) got.insert(index(*x));
        MC_CHECK(got == s, when << ": mixins of object " << i);
        strings v;
        if (s.count(m_alpha)) v.push_back("alpha"); if (s.count(m_beta)) v.push_back("beta"); if (s.count(m_gamma)) v.push_back("gamma");
        if (s.count(m_a)) v.push_back(m.loaded[p_mod] ? "plug_a mod" : "plug_a"); if (s.count(m_b)) v.push_back("plug_b");
        if (v.empty()) MC_EQ(or_error([&] { visited(o); return 0; }), -100, when << ": message to an object without implementation");
        else MC_CHECK(visited(o) == v, when << ": multicast message to object " << i);
        MC_EQ(or_error([&] { return value_msg::call(o); }), s.count(m_a) ? m.loaded[p_mod] ? 71 : 70 : s.count(m_alpha) ? 5 : -100, when << ": unicast message to object " << i);
        MC_EQ(name_of(o, int(i)), (s.count(m_c) ? "plug_c " : s.count(m_beta) ? "beta " : "none ") + std::to_string(i), when << ": message with default to object " << i);
        MC_EQ(o.get_type().is_of<full>(), s.count(m_alpha) && s.count(m_beta), when << ": type class");
        if (m.loaded[p_b]) { MC_EQ(o.get_type().is_of("plug_tc"), s.count(m_b) > 0, when << ": type class of a plugin"); MC_EQ(ps[p_b].own(o), int(s.count(m_b)), when << ": type class of a plugin"); }
        for (int k = p_c; k <= p_d; ++k) if (m.loaded[k]) MC_EQ(ps[k].own(o), s.count(m_c) ? 909 : -2, when << ": message of a plugin");
    }
}
void plugins(int depth, int nobjs, const std::vector<int>& which, bool merge) {
    pmodel m; m.objs.resize(size_t(nobjs));
    std::vector<action> seq;
    bool known = false; // what follows is explored elsewhere
    for (int i = 0; i < depth; ++i) {
        auto e = enabled(m, which);
        auto a = e[size_t(mc::choose(int(e.size())))];
        apply(m, a); seq.push_back(a);
        if (merge && i + 1 < depth && !mc::visit(m.key(), depth - i - 1)) { known = true; break; }
    }
    // how the program ends: everything is unloaded in one of two orders, or nothing is
    int end = known ? 2 : mc::choose(3);
    if (mc::pruned()) return;
    for (size_t i = 0; i < seq.size(); ++i) mc::step_();
    in_child([&] {
        for (int u = 0; u < units; ++u) { run_unit(u); g_done.push_back(u); }
        check_units("in the program"); g_ever.clear();
        pmodel m; m.objs.resize(size_t(nobjs));
        loaded_plugin ps[5];
        {
            std::vector<app_obj> os(static_cast<size_t>(nobjs));
            for (auto& a : seq) {
                MC_STEP(text(a));
                auto before = m;
                apply(m, a);
                switch (a.what) {
                case a_load: load(ps[a.arg], a.arg); break;
                case a_unload: unload(ps[a.arg], a.arg); break;
                case a_alpha: if (before.objs[size_t(a.obj)].count(m_alpha)) mutate(os[size_t(a.obj)], dynamix::remove<alpha>()); else mutate(os[size_t(a.obj)], dynamix::add<alpha>()); break;
                case a_plug: (before.objs[size_t(a.obj)].count(m.mixin_of(a.arg)) ? ps[a.arg].leave : ps[a.arg].enter)(os[size_t(a.obj)]); break;
                default: g::get_domain<app>().garbage_collect_types();
                }
                check_plugins(m, ps, os.data(), "after a step");
                if (a.what == a_unload && a.arg == p_d) _exit(0); // known finding: the domain can't be used safely from here on
            }
        }
        for (auto& o : m.objs) o.clear();
        if (end < 2) for (int i = 0; i < 5; ++i) {
            int k = end ? 4 - i : i;
            if (!ps[k].h) continue;
            MC_STEP("unload plugin " << plugin_name(k));
            unload(ps[k], k); m.unload(k);
            if (k == p_d) _exit(0);
        }
        app_obj none[2];
        check_plugins(m, ps, none, "at the end");
        MC_LOG("exit");
    });
}
// load, optionally use, unload: the message of the plugin stays (a known finding), nothing else does
void staying_message() {
    g_known_dangling = true;
    plugins(mc::pick(4, 5), 1, {p_a, p_d}, false);
    g_known_dangling = false;
}
}

int main(int argc, char** argv) {
    mc::section("initialization-orders", [] { orders(0, units, 2); });
    mc::section("initialization-orders/v1", [] { orders(units, all_units, 2); });
    mc::section("plugins/one-object", [] { plugins(mc::pick(4, 5), 1, {p_a, p_mod, p_b, p_c}, false); });
    mc::section("plugins/merged", [] { plugins(mc::pick(5, 7), 1, {p_a, p_mod, p_b, p_c}, true); });
    mc::section("plugins/two-objects", [] { plugins(mc::pick(3, 6), 2, {p_a, p_b, p_c}, mc::thorough); });
    mc::section("plugins/message-which-stays", staying_message);
    return mc::main_(argc, argv, [] {});
}
