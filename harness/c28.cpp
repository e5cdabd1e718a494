// Introspection: after every step of a history the traversal, the counts and the text dump show what the model of the domain contains.
#include "kit.hpp"
#include "wide2.hpp"
#include <dynamix/dbg_dmp.hpp>
#include <dynamix/type_class.hpp>
#include <algorithm>
#include <sstream>
using namespace kit;

namespace {
enum { A, B, C, NM };
enum { F, G, H, NF };
using list = std::vector<int>;
using strs = std::vector<std::string>;
bool has(const list& l, int m) { return std::find(l.begin(), l.end(), m) != l.end(); }
std::string show(const list& l) { std::string s; for (int i : l) s += (s.empty() ? "'" : ", '") + std::string(1, "abc"[i]) + "'"; return "{" + s + "}"; }
std::string join(const strs& v) { std::string r; for (auto& s : v) r += s + "|"; return r; }
strs sorted(strs v) { std::sort(v.begin(), v.end()); return v; }
bool begins(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }

int pay[4];
bool match_a(dnmx_type_handle h) noexcept { auto t = type::from_c_handle(h); for (auto i : t->mixins) if (i->name == "a") return true; return false; }
bool match_two(dnmx_type_handle h) noexcept { return type::from_c_handle(h)->num_mixins() >= 2; }
dnmx_error_return_t rule_ab(dnmx_type_mutation_handle, uintptr_t);
dnmx_error_return_t rule_none(dnmx_type_mutation_handle, uintptr_t) { return 0; }
dnmx_error_return_t rule_no_c(dnmx_type_mutation_handle, uintptr_t);

struct section { long count; strs lines; };

struct world {
    world_guard wg;
    res dres{"domain"}, ores{"objects"};
    std::deque<probe> ps;
    feature_info fi[NF];
    type_class tc[2];
    mutation_rule_info rule[3];
    std::unique_ptr<domain> d;
    bool canon;
    static world*& W() { static world* w; return w; }

    // model
    int fid[NF] = {-1, -1, -1}, mid[NM] = {-1, -1, -1};
    uint32_t refs[3] = {0, 0, 0};
    std::vector<int> tcs; // registered type classes
    std::map<list, const type*> types;
    std::map<list, list> queries;
    struct obj { std::unique_ptr<object> o; list l; };
    std::vector<obj> objs;
    size_t own_rules = 0; // rules of the domain itself

    static const std::vector<std::pair<int, std::array<int, 3>>>& impl(int m) {
        // mixin: features with bid, priority and payload
        static const std::vector<std::pair<int, std::array<int, 3>>> I[NM] = { {{F, {0, 0, 0}}}, {{F, {1, 2, 1}}, {G, {0, -3, 2}}}, {} };
        return I[m];
    }
    world(bool c, int nobj) : canon(c), objs(size_t(nobj)) {
        W() = this;
        const char* fn_[] = {"f", "g", "h"};
        for (int i = 0; i < NF; ++i) { fi[i] = dnmx_make_feature_info(); fi[i].name = dnmx_make_sv_len(fn_[i], 1); fi[i].allow_clashes = true; }
        ps.emplace_back("a", 8, 8); ps.emplace_back("b", 16, 4); ps.back().external(); ps.emplace_back("c", 3, 1);
        for (int i = 0; i < NM; ++i) for (auto& x : impl(i)) ps[size_t(i)].feature(fi[x.first], &pay[x.second[2]], x.second[0], x.second[1]);
        for (auto& t : tc) t = type_class{}; tc[0].name = dnmx_make_sv_lit("with_a"); tc[0].matches = match_a; tc[1].name = dnmx_make_sv_lit("two"); tc[1].matches = match_two;
        const char* rn[] = {"ab", "none", "no_c"};
        decltype(rule[0].apply) ra[] = {rule_ab, rule_none, rule_no_c};
        for (int i = 0; i < 3; ++i) { rule[i] = mutation_rule_info{}; rule[i].name = dnmx_make_sv_len(rn[i], strlen(rn[i])); rule[i].apply = ra[i]; rule[i].order_priority = i - 1; rule[i].user_data = uintptr_t(40 + i); }
        domain_settings s{}; s.canonicalize_types = canon;
        d = std::make_unique<domain>("dom", s, 77, nullptr, allocator(&dres));
        own_rules = d->num_mutation_rules();
        for (int i : {A, C}) reg_mixin(i);
    }
    ~world() { objs.clear(); d.reset(); }
    mixin_info& m(int i) { return ps[size_t(i)].info; }
    static int lowest(const int* ids, int n) { for (int i = 0;; ++i) { bool used = false; for (int k = 0; k < n; ++k) used |= ids[k] == i; if (!used) return i; } }
    void reg_feature(int f) { d->register_feature(fi[f]); fid[f] = lowest(fid, NF); }
    void reg_mixin(int i) {
        d->register_mixin(m(i));
        for (auto& x : impl(i)) if (fid[x.first] < 0) fid[x.first] = lowest(fid, NF);
        mid[i] = lowest(mid, NM);
    }
    list settle(list l) const {
        if (refs[0] && has(l, A) && !has(l, B)) l.push_back(B);
        if (refs[2]) l.erase(std::remove(l.begin(), l.end(), int(C)), l.end());
        if (canon) std::sort(l.begin(), l.end());
        return l;
    }
    bool valid(const list& l) const { for (int i : l) if (mid[i] < 0) return false; return true; }
    size_t count(const list& l) { size_t n = 0; for (auto& o : objs) if (o.o && o.l == l) ++n; return n; }
    const type* request(const list& l) {
        infos v; for (int i : l) v.push_back(&m(i));
        auto r = settle(l);
        const type* t = nullptr;
        auto e = outcome_of([&] { t = &d->get_type(v); });
        MC_EQ(e.empty(), valid(r), "outcome of the request of " << show(l) << " (" << e << ")");
        if (!t) return nullptr;
        MC_EQ(of(*t), show(r), "answer to " << show(l));
        if (!r.empty()) { auto f = types.emplace(r, t); MC_CHECK(f.first->second == t, "another type for " << show(r)); }
        if (valid(l)) queries[l] = r; // requests with unregistered mixins (which rules removed) aren't stored
        return t;
    }
    std::string of(itlib::span<const mixin_info* const> s) { list l; for (auto i : s) { int k = 0; while (k < NM && i != &m(k)) ++k; if (k == NM) mc::fail("unknown mixin"); l.push_back(k); } return show(l); }
    std::string of(const type& t) { return of(t.mixins); }

    std::map<std::string, section> parse(const std::string& text, std::string& head) {
        std::map<std::string, section> r;
        std::istringstream in(text);
        std::string l; section* cur = nullptr; strs intro;
        while (std::getline(in, l)) {
            if (begins(l, "## ")) {
                auto n = l.substr(3); long cnt = -1;
                if (!n.empty() && isdigit(n[0])) { size_t p; cnt = std::stol(n, &p); n = n.substr(p + 1); }
                MC_CHECK(!r.count(n), "section " << n << " is dumped twice");
                cur = &r[n]; cur->count = cnt;
            }
            else if (cur) cur->lines.push_back(l);
            else intro.push_back(l);
        }
        head = join(intro);
        return r;
    }
    // the parts of a dump: a line per element followed by indented lines
    static std::vector<strs> elements(const section& s) {
        std::vector<strs> r;
        for (auto& l : s.lines) { if (begins(l, "  ") && !r.empty()) r.back().push_back(l.substr(2)); else r.push_back({l}); }
        return r;
    }
    static bool word(const std::string& l, const std::string& w) { // a number or word as a whole
        for (size_t p = l.find(w); p != std::string::npos; p = l.find(w, p + 1)) {
            auto sep = [&](size_t i) { return i >= l.size() || !(isalnum((unsigned char)l[i]) || l[i] == '-' || l[i] == '_'); };
            if ((p == 0 || sep(p - 1)) && sep(p + w.size())) return true;
        }
        return false;
    }
#define LINE(l, w) MC_CHECK(word(l, w), "the dump has `" << l << "`, expected `" << (w) << "`")
    void slots_and_ids(const section& s, const std::string& kind, const int* ids, int n, const char* const* nm, uint32_t flags) {
        long registered = 0, next = 0;
        for (int i = 0; i < n; ++i) registered += ids[i] >= 0;
        MC_EQ(s.count, registered, "dumped number of " << kind);
        std::set<int> left; for (int i = 0; i < n; ++i) if (ids[i] >= 0) left.insert(i);
        for (auto& e : elements(s)) {
            if (begins(e[0], kind + ": ")) {
                int w = -1;
                for (int i : left) if (e[0].find(std::string("'") + nm[i] + "'") != std::string::npos) { w = i; break; }
                MC_CHECK(w >= 0, "the dump has `" << e[0] << "` which isn't registered or is already listed");
                left.erase(w);
                MC_EQ(long(ids[w]), next, "slot of the dumped " << nm[w]);
                ++next;
                LINE(e[0], "id: " + std::to_string(ids[w]));
                if (kind == "mixin") {
                    LINE(e[0], w == B ? "external" : "internal");
                    LINE(e[0], std::to_string(impl(w).size()) + " features");
                    auto& in = m(w);
                    if (flags & dnmx_mixin_dmp_ex) {
                        auto all = join(e);
                        LINE(all, "size: " + std::to_string(in.size)); LINE(all, "alignment: " + std::to_string(in.alignment)); LINE(all, "order_priority: " + std::to_string(in.order_priority));
                    }
                    size_t listed = 0;
                    for (auto& l : e) for (auto& x : impl(w)) if (begins(l, "  '" + std::string(fi[x.first].name.to_std()) + "': ")) {
                        ++listed;
                        LINE(l, std::to_string(x.second[0]) + "_bid"); LINE(l, std::to_string(x.second[1]) + "_prio");
                    }
                    MC_EQ(listed, flags & dnmx_mixin_dmp_features ? impl(w).size() : size_t(0), "dumped features of " << nm[w]);
                }
            }
            else if (e[0].find(" empty slots") != std::string::npos) next += std::stol(e[0]);
            else MC_CHECK(false, "unexpected line in the dump of " << kind << "s: " << e[0]);
        }
        MC_CHECK(left.empty(), "the dump lacks " << nm[*left.begin()]);
    }
    void type_lines(const strs& e, const list& l, uint32_t flags) {
        size_t nf = 0; std::map<int, list> by; // feature: implementing mixins
        for (int i : l) for (auto& x : impl(i)) by[x.first].push_back(i);
        nf = by.size();
        auto all = join(e);
        LINE(e[0], "'dom'");
        if (flags & dnmx_type_dmp_ex) { LINE(all, "num obj: " + std::to_string(l.empty() ? 0 : count(l))); LINE(all, "features: " + std::to_string(nf)); LINE(all, "obj buf size: " + std::to_string(l.empty() ? 0 : types.at(l)->object_buffer_size)); }
        size_t impls = 0, entries = 0, q = 0, t = 0; std::string part;
        strs ql, tl;
        for (size_t i = 1; i < e.size(); ++i) {
            auto& s = e[i];
            if (!begins(s, " ")) part = s;
            else if (begins(s, "    ")) { ++entries; }
            else if (begins(s, "  impl: ")) { ++impls; bool known = false; for (auto& b : by) known |= s.find("'" + std::string(fi[b.first].name.to_std()) + "'") != std::string::npos; MC_CHECK(known, "a feature which the type lacks: " << s); }
            else if (part.find("matching queries") != std::string::npos) { ++q; ql.push_back(s.substr(2)); }
            else if (part.find("matching type classes") != std::string::npos) { ++t; tl.push_back(s.substr(2)); }
            else MC_CHECK(false, "unexpected line in the dump of a type: " << s);
            if (part.find("matching queries") != std::string::npos && !begins(s, " ")) { size_t n = 0; for (auto& x : shown_queries()) n += x.second == show(l); MC_EQ(size_t(std::stol(s)), n, "dumped number of queries of " << show(l)); }
        }
        MC_EQ(impls, flags & dnmx_type_dmp_ftable ? nf : size_t(0), "dumped features of " << show(l));
        size_t ne = 0; for (auto& b : by) ne += b.second.size();
        MC_EQ(entries, (flags & dnmx_type_dmp_ftable) && (flags & dnmx_type_dmp_full_ftable) ? ne : size_t(0), "dumped implementations of " << show(l));
        strs eq, et;
        if (flags & dnmx_type_dmp_matching_queries) for (auto& x : shown_queries()) if (x.second == show(l)) eq.push_back(x.first);
        if (flags & dnmx_type_dmp_matching_type_classes) for (int i : tcs) if (i ? l.size() >= 2 : has(l, A)) et.push_back(std::string(tc[i].name.to_std()));
        MC_EQ(join(sorted(ql)), join(sorted(eq)), "dumped queries of " << show(l));
        MC_EQ(join(sorted(tl)), join(sorted(et)), "dumped type classes of " << show(l));
    }
    std::vector<std::pair<std::string, std::string>> shown_q;
    const std::vector<std::pair<std::string, std::string>>& shown_queries() const { return shown_q; }

    void check_dump(uint32_t flags) {
        std::ostringstream out;
        util::dbg_dmp(out, *d, flags);
        std::string head;
        auto s = parse(out.str(), head);
        LINE(head, "'dom'"); LINE(head, "ud: 77");
        struct { uint32_t flag; const char* name; } S[] = {{dnmx_dom_dmp_features, "Features"}, {dnmx_dom_dmp_mixins, "Mixins"}, {dnmx_dom_dmp_mutation_rules, "Mutation Rules"}, {dnmx_dom_dmp_type_classes, "Type Classes"}, {dnmx_dom_dmp_types, "Types"}, {dnmx_dom_dmp_type_queries, "Type Queries"}, {dnmx_dom_dmp_settings, "Settings"}};
        for (auto& x : S) MC_EQ(s.count(x.name), size_t(!!(flags & x.flag)), "section " << x.name << " for flags " << flags);
        static const char* fn_[] = {"f", "g", "h"}; static const char* mn[] = {"a", "b", "c"};
        if (flags & dnmx_dom_dmp_settings) { auto all = join(s["Settings"].lines); LINE(all, std::string("canonicalize_types: ") + (canon ? "true" : "false")); LINE(all, "allow_duplicate_mixin_names: false"); LINE(all, "allow_duplicate_feature_names: false"); }
        if (flags & dnmx_dom_dmp_features) slots_and_ids(s["Features"], "feature", fid, NF, fn_, flags);
        if (flags & dnmx_dom_dmp_mixins) slots_and_ids(s["Mixins"], "mixin", mid, NM, mn, flags);
        if (flags & dnmx_dom_dmp_mutation_rules) {
            auto& x = s["Mutation Rules"];
            size_t n = own_rules; for (auto r : refs) n += r > 0;
            MC_EQ(size_t(x.count), n, "dumped number of rules");
            MC_EQ(x.lines.size(), n, "dumped rules");
            for (int i = 0; i < 3; ++i) {
                strs ls; for (auto& l : x.lines) if (begins(l, "rule: '" + std::string(rule[i].name.to_std()) + "'")) ls.push_back(l);
                MC_EQ(ls.size(), size_t(refs[i] > 0), "dumps of rule " << i);
                for (auto& l : ls) { LINE(l, std::to_string(refs[i]) + " refs"); LINE(l, "prio: " + std::to_string(i - 1)); LINE(l, "ud: " + std::to_string(40 + i)); }
            }
        }
        if (flags & dnmx_dom_dmp_types) {
            auto& x = s["Types"];
            auto es = elements(x);
            MC_EQ(size_t(x.count), types.size(), "dumped number of types"); MC_EQ(es.size(), types.size(), "dumped types");
            for (auto& t : types) { size_t n = 0; for (auto& e : es) if (begins(e[0], "type: " + show(t.first) + " ")) { ++n; type_lines(e, t.first, flags); } MC_EQ(n, size_t(1), "dumps of type " << show(t.first)); }
        }
        if (flags & dnmx_dom_dmp_type_classes) {
            auto& x = s["Type Classes"];
            MC_EQ(size_t(x.count), tcs.size(), "dumped number of type classes"); MC_EQ(x.lines.size(), tcs.size(), "dumped type classes");
            for (int i : tcs) { size_t n = 0; for (auto& l : x.lines) n += begins(l, "type class: '" + std::string(tc[i].name.to_std())); MC_EQ(n, size_t(1), "dumps of type class " << i); }
        }
        if (flags & dnmx_dom_dmp_type_queries) {
            auto& x = s["Type Queries"];
            MC_EQ(size_t(x.count), shown_q.size(), "dumped number of queries");
            strs e; for (auto& q : shown_q) e.push_back("tq: " + q.first + " -> type: " + q.second);
            MC_EQ(join(sorted(x.lines)), join(sorted(e)), "dumped queries");
        }
    }
    void check(const list* asked) {
        {
            domain_traverse tr(*d);
            std::set<const void*> seen;
            auto once = [&](const void* p) { MC_CHECK(seen.insert(p).second, "visited twice"); };
            size_t n = 0;
            for (int again = 0; again < 2; ++again) {
                seen.clear(); n = 0;
                tr.traverse_mixins([&](const mixin_info& i) { once(&i); int k = int(std::find_if(ps.begin(), ps.end(), [&](probe& p) { return &p.info == &i; }) - ps.begin()); MC_CHECK(k < NM && mid[k] >= 0, "a mixin which isn't registered"); MC_EQ(int(i.id.i), mid[k], "id of a mixin"); ++n; });
                MC_EQ(n, size_t((mid[0] >= 0) + (mid[1] >= 0) + (mid[2] >= 0)), "visited mixins");
                n = 0;
                tr.traverse_features([&](const feature_info& i) { once(&i); auto k = &i - fi; MC_CHECK(k >= 0 && k < NF && fid[k] >= 0, "a feature which isn't registered"); MC_EQ(int(i.id.i), fid[k], "id of a feature"); ++n; });
                MC_EQ(n, size_t((fid[0] >= 0) + (fid[1] >= 0) + (fid[2] >= 0)), "visited features");
                size_t own = 0; n = 0;
                tr.traverse_mutation_rules([&](const mutation_rule_info& i, uint32_t r) { once(&i); auto k = &i - rule; if (&i < rule || k >= 3) { ++own; return; } MC_EQ(r, refs[k], "number of times rule " << k << " is added"); MC_CHECK(r > 0, "a removed rule"); ++n; });
                MC_EQ(n, size_t((refs[0] > 0) + (refs[1] > 0) + (refs[2] > 0)), "visited rules"); MC_EQ(own, own_rules, "rules of the domain itself");
                n = 0;
                tr.traverse_type_classes([&](const type_class& i) { once(&i); auto k = &i - tc; MC_CHECK(has(tcs, int(k)), "a type class which isn't registered"); ++n; });
                MC_EQ(n, tcs.size(), "visited type classes");
                n = 0;
                tr.traverse_types([&](const type& t) { once(&t); bool f = false; for (auto& x : types) if (x.second == &t) { f = true; MC_EQ(of(t), show(x.first), "mixins of a type"); } MC_CHECK(f, "a type which doesn't exist: " << of(t)); ++n; });
                MC_EQ(n, types.size(), "visited types");
                shown_q.clear();
                std::set<std::string> keys;
                tr.traverse_type_queries([&](itlib::span<const mixin_info* const> q, const type& t) {
                    auto k = of(q); MC_CHECK(keys.insert(k).second, "request " << k << " is visited twice");
                    bool f = false; for (auto& x : queries) if (show(x.first) == k) { f = true; MC_EQ(of(t), show(x.second), "stored answer to " << k); }
                    MC_CHECK(f, "request " << k << " isn't stored or its answer isn't valid any more");
                    MC_CHECK(t.num_mixins() == 0 ? &t == &d->get_empty_type() : seen.count(&t) == 1, "the stored answer isn't an existing type");
                    shown_q.emplace_back(k, of(t));
                });
                MC_CHECK(!asked || !valid(*asked) || keys.count(show(*asked)), "the request which was just answered isn't stored");
            }
        }
        MC_EQ(d->num_types(), types.size(), "number of types");
        MC_EQ(d->num_type_queries(), shown_q.size(), "number of queries");
        size_t nr = own_rules; for (auto r : refs) nr += r > 0;
        MC_EQ(d->num_mutation_rules(), nr, "number of rules");
    }
    void check_dumps() { for (uint32_t f : {uint32_t(dnmx_dmp_all), uint32_t(dnmx_dmp_min), uint32_t(dnmx_dom_dmp_all)}) check_dump(f); }
    // dumps with a single part, and of single elements
    void check_parts(int f) {
        static const uint32_t P[] = {dnmx_dom_dmp_features, dnmx_dom_dmp_mixins, dnmx_dom_dmp_mutation_rules, dnmx_dom_dmp_type_classes, dnmx_dom_dmp_types, dnmx_dom_dmp_type_queries, dnmx_dom_dmp_settings,
            dnmx_dom_dmp_mixins | dnmx_mixin_dmp_ex, dnmx_dom_dmp_mixins | dnmx_mixin_dmp_features, dnmx_dom_dmp_types | dnmx_type_dmp_ex, dnmx_dom_dmp_types | dnmx_type_dmp_ftable, dnmx_dom_dmp_types | dnmx_type_dmp_full_ftable,
            dnmx_dom_dmp_types | dnmx_type_dmp_ftable | dnmx_type_dmp_full_ftable, dnmx_dom_dmp_types | dnmx_type_dmp_matching_type_classes, dnmx_dom_dmp_types | dnmx_type_dmp_matching_queries, dnmx_dom_dmp_type_classes | dnmx_tc_dmp_all};
        check_dump(P[f]);
    }
    static constexpr int NPARTS = 16;
    void check_single() {
        auto lines = [](const std::string& s) { strs r; std::istringstream in(s); std::string l; while (std::getline(in, l)) r.push_back(r.empty() ? l : l.substr(std::min<size_t>(2, l.size()))); return r; };
        for (auto& t : types) for (uint32_t f : {uint32_t(dnmx_type_dmp_all), uint32_t(0), uint32_t(dnmx_type_dmp_matching_queries), uint32_t(dnmx_type_dmp_matching_type_classes)}) {
            std::ostringstream o; util::dbg_dmp(o, *t.second, f);
            auto e = lines(o.str()); MC_CHECK(begins(e.at(0), "type: " + show(t.first) + " "), "dump of a type: " << e[0]);
            type_lines(e, t.first, f);
        }
        for (int i = 0; i < NM; ++i) { std::ostringstream o; util::dbg_dmp(o, m(i), 0); LINE(o.str(), mid[i] >= 0 ? "id: " + std::to_string(mid[i]) : std::string("unregistered")); LINE(o.str(), std::string("'") + "abc"[i] + "'"); }
        for (int i = 0; i < NF; ++i) { std::ostringstream o; util::dbg_dmp(o, fi[i]); LINE(o.str(), fid[i] >= 0 ? "id: " + std::to_string(fid[i]) : std::string("unregistered")); LINE(o.str(), std::string("'") + "fgh"[i] + "'"); }
        for (auto& r : rule) { std::ostringstream o; util::dbg_dmp(o, r); LINE(o.str(), "'" + std::string(r.name.to_std()) + "'"); LINE(o.str(), "prio: " + std::to_string(r.order_priority)); }
    }
    std::string key() {
        std::string k;
        for (int i : mid) k += std::to_string(i) + ","; for (int i : fid) k += std::to_string(i) + ","; for (auto i : refs) k += std::to_string(i) + ",";
        for (int i : tcs) k += "t" + std::to_string(i);
        std::vector<std::string> ss; for (auto& s : objs) ss.push_back(s.o ? show(s.l) : "-"); std::sort(ss.begin(), ss.end()); k += join(ss);
        for (auto& t : types) k += show(t.first);
        for (auto& q : queries) k += show(q.first) + ">" + show(q.second);
        return k;
    }
};
dnmx_error_return_t rule_ab(dnmx_type_mutation_handle h, uintptr_t) { auto& m = *type_mutation::from_c_handle(h); if (m.has(world::W()->m(A))) m.add_if_lacking(world::W()->m(B)); return 0; }
dnmx_error_return_t rule_no_c(dnmx_type_mutation_handle h, uintptr_t) { type_mutation::from_c_handle(h)->remove(world::W()->m(C)); return 0; }

void run(bool dedup, bool canon, int depth, int nobj) {
    world w(canon, nobj);
    w.check(nullptr); w.check_dumps();
    const std::vector<list> L = {{}, {A}, {C, A}, {A, B}, {B, A}, {C}};
    const int n = int(L.size());
    for (int i = 0; i < depth; ++i) {
        int op = mc::choose(2 * n + 1 + NM + NF + 2 + 3 + 3 + 1);
        int slot = op >= n && op < 2 * n + 1 ? mc::choose(nobj) : 0;
        if (mc::pruned()) return;
        const list* asked = nullptr;
        if (op < n) { MC_STEP("request " << show(L[size_t(op)])); if (w.request(L[size_t(op)])) asked = &L[size_t(op)]; }
        else if ((op -= n) < n) {
            auto& o = w.objs[size_t(slot)];
            if (o.o) return;
            MC_STEP("create an object of " << show(L[size_t(op)]));
            auto t = w.request(L[size_t(op)]);
            if (t) { o.o = std::make_unique<object>(*t, allocator(&w.ores)); o.l = w.settle(L[size_t(op)]); asked = &L[size_t(op)]; }
        }
        else if ((op -= n) == 0) { auto& o = w.objs[size_t(slot)]; if (!o.o) return; MC_STEP("destroy an object of " << show(o.l)); o.o.reset(); o.l.clear(); }
        else if ((op -= 1) < NM) {
            if (w.mid[op] < 0) { MC_STEP("register mixin " << "abc"[op]); w.reg_mixin(op); }
            else {
                for (auto& o : w.objs) if (o.o && has(o.l, op)) return; // precondition: no objects with it
                MC_STEP("unregister mixin " << "abc"[op]);
                w.d->unregister_mixin(w.m(op)); w.mid[op] = -1;
                for (auto q = w.queries.begin(); q != w.queries.end();) if (has(q->first, op) || has(q->second, op)) q = w.queries.erase(q); else ++q;
                for (auto t = w.types.begin(); t != w.types.end();) if (has(t->first, op)) t = w.types.erase(t); else ++t;
            }
        }
        else if ((op -= NM) < NF) {
            if (w.fid[op] < 0) { MC_STEP("register feature " << "fgh"[op]); w.reg_feature(op); }
            else {
                for (int k = 0; k < NM; ++k) if (w.mid[k] >= 0) for (auto& x : w.impl(k)) if (x.first == op) return; // precondition: no mixin has it
                MC_STEP("unregister feature " << "fgh"[op]);
                w.d->unregister_feature(w.fi[op]); w.fid[op] = -1;
            }
        }
        else if ((op -= NF) < 2) {
            auto f = std::find(w.tcs.begin(), w.tcs.end(), op);
            if (f == w.tcs.end()) { MC_STEP("register type class " << op); w.d->register_type_class(w.tc[op]); w.tcs.push_back(op); }
            else { MC_STEP("unregister type class " << op); w.d->unregister_type_class(w.tc[op]); w.tcs.erase(f); }
        }
        else if ((op -= 2) < 3) {
            if (w.refs[op] == 2) return;
            MC_STEP("add rule " << op);
            w.d->add_mutation_rule(w.rule[op]);
            if (w.refs[op]++ == 0) w.queries.clear();
        }
        else if ((op -= 3) < 3) {
            MC_STEP("remove rule " << op);
            w.d->remove_mutation_rule(w.rule[op]);
            if (w.refs[op] && --w.refs[op] == 0) w.queries.clear();
        }
        else {
            MC_STEP("collect types");
            w.d->garbage_collect_types();
            for (auto t = w.types.begin(); t != w.types.end();) {
                if (w.count(t->first)) { ++t; continue; }
                for (auto q = w.queries.begin(); q != w.queries.end();) if (q->second == t->first) q = w.queries.erase(q); else ++q;
                t = w.types.erase(t);
            }
        }
        if (!mc::is_new()) continue;
        w.check(asked);
        if (!dedup) w.check_dumps();
        auto k = w.key();
        mc::outcome(k);
        if (dedup && !mc::visit(k, depth - 1 - i)) return;
        if (dedup) w.check_dumps();
        if (dedup || i == depth - 1) { for (int f = 0; f < world::NPARTS; ++f) w.check_parts(f); w.check_single(); }
    }
}
}

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [] {
        setup_default();
        using mc::pick;
        mc::section("plain/all-states", [] { run(true, false, pick(5, 7), 1); });
        mc::section("plain/all-sequences", [] { run(false, false, pick(3, 4), 2); });
        mc::section("canonical/all-states", [] { run(true, true, pick(4, 6), 2); });
        mc::section("many-elements", [] { wide::contents(mc::pick(129, 513)); });
    });
}
