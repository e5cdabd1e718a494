// String views: all pairs and triples of small strings, in all placements.
#include "mc.hpp"
#include <dnmx/bits/sv.h>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
extern "C" {
int c22_cmp(dnmx_sv, dnmx_sv); bool c22_eq(dnmx_sv, dnmx_sv); bool c22_is_null(dnmx_sv); bool c22_is_empty(dnmx_sv); size_t c22_len(dnmx_sv);
bool c22_starts_with(dnmx_sv, const char*); const char* c22_find_first(dnmx_sv, char); const char* c22_find_last(dnmx_sv, char);
dnmx_sv c22_str(const char*); dnmx_sv c22_len_(const char*, size_t); dnmx_sv c22_be(const char*, const char*); dnmx_sv c22_lit(int);
}
namespace {
using str = std::vector<unsigned char>;
const unsigned char AL[] = {0x00, 'a', 'b', 0x80, 0xff, 0x01, 0x7f};
constexpr int NAL = 5;
std::string show(const str& s) { std::string r; char b[5]; for (auto c : s) { snprintf(b, 5, "\\%02x", c); r += b; } return '"' + r + '"'; }
int sign(int x) { return (x > 0) - (x < 0); }
int order(const str& a, const str& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()) ? -1 : a == b ? 0 : 1; }
str pick_str(int max, int nal = NAL) { str s; int n = mc::choose(max + 1); for (int i = 0; i < n; ++i) s.push_back(AL[mc::choose(nal)]); return s; }

// memory of exactly the size of the string: reading anything else is noticed by the address sanitizer
struct placed {
    std::unique_ptr<char[]> m; size_t n; bool null;
    placed(const str& s, bool null) : m(null ? nullptr : new char[s.size()]), n(s.size()), null(null) { std::copy(s.begin(), s.end(), m.get()); }
    dnmx_sv sv() const { return null ? dnmx_sv{nullptr, nullptr} : dnmx_make_sv_len(m.get(), n); }
};
void check_pair(const str& a, const str& b, dnmx_sv x, dnmx_sv y) {
    mc::step_();
    int o = order(a, b);
    auto d = [&] { return show(a) + (x.begin ? "" : " (null)") + " and " + show(b) + (y.begin ? "" : " (null)"); };
    if (mc::recording) mc::log_("compare " + d());
    MC_EQ(sign(dnmx_sv_cmp(x, y)), o, "order of " << d()); MC_EQ(sign(c22_cmp(x, y)), o, "order in C of " << d());
    MC_EQ(sign(dnmx_sv_cmp(y, x)), -o, "order backwards of " << d()); MC_EQ(sign(c22_cmp(y, x)), -o, "order backwards in C of " << d());
    MC_EQ(dnmx_sv_eq(x, y), o == 0, "equality of " << d()); MC_EQ(c22_eq(x, y), o == 0, "equality in C of " << d());
    auto sx = x.to_std(), sy = y.to_std();
    MC_EQ(x == y, o == 0, "== of " << d()); MC_EQ(x != y, o != 0, "!= of " << d()); MC_EQ(x < y, o < 0, "< of " << d()); MC_EQ(y < x, o > 0, "> of " << d());
    MC_EQ(x == sy, o == 0, "== with a standard view of " << d()); MC_EQ(sx == y, o == 0, "standard view == of " << d());
    MC_EQ(x != sy, o != 0, "!= with a standard view of " << d()); MC_EQ(sx != y, o != 0, "standard view != of " << d());
}
void check_one(const str& a, dnmx_sv x) {
    mc::step_();
    auto d = [&] { return show(a) + (x.begin ? "" : " (null)"); };
    if (mc::recording) mc::log_("queries of " + d());
    MC_EQ(dnmx_sv_len(x), a.size(), "length of " << d()); MC_EQ(c22_len(x), a.size(), "length in C of " << d());
    MC_EQ(dnmx_sv_is_empty(x), a.empty(), "empty " << d()); MC_EQ(c22_is_empty(x), a.empty(), "empty in C " << d()); MC_EQ(x.empty(), a.empty(), "empty() " << d());
    MC_EQ(dnmx_sv_is_null(x), !x.begin, "null"); MC_EQ(c22_is_null(x), !x.begin, "null in C");
    auto s = x.to_std();
    MC_CHECK(s.data() == x.begin && s.size() == a.size(), "standard view of " << d());
    auto y = dnmx_sv::from_std(s);
    MC_CHECK(y.begin == x.begin && y.end == x.end, "view of a standard view of " << d());
    auto z = c22_be(x.begin, x.end); MC_CHECK(z.begin == x.begin && z.end == x.end, "by begin and end");
    z = dnmx_make_sv_be(x.begin, x.end); MC_CHECK(z.begin == x.begin && z.end == x.end, "by begin and end");
    if (x.begin) { z = c22_len_(x.begin, a.size()); MC_CHECK(z.begin == x.begin && z.end == x.end, "by length"); }
    for (int c = 0; c < 256; ++c) {
        const char *f = nullptr, *l = nullptr;
        for (size_t i = 0; i < a.size(); ++i) if (a[i] == c) { if (!f) f = x.begin + i; l = x.begin + i; }
        MC_CHECK(dnmx_sv_find_first(x, char(c)) == f && c22_find_first(x, char(c)) == f, "first " << c << " in " << d());
        MC_CHECK(dnmx_sv_find_last(x, char(c)) == l && c22_find_last(x, char(c)) == l, "last " << c << " in " << d());
    }
}
void check_prefix(const str& a, const str& p, dnmx_sv x) { // p has no zeros
    mc::step_();
    std::unique_ptr<char[]> m(new char[p.size() + 1]); std::copy(p.begin(), p.end(), m.get()); m[p.size()] = 0;
    bool want = p.size() <= a.size() && std::equal(p.begin(), p.end(), a.begin());
    if (mc::recording) mc::log_(show(p) + " is a prefix of " + show(a));
    MC_EQ(dnmx_sv_starts_with(x, m.get()), want, show(p) << " is a prefix of " << show(a)); MC_EQ(c22_starts_with(x, m.get()), want, show(p) << " is a prefix of " << show(a) << " in C");
    auto s = dnmx_make_sv_str(m.get()), t = c22_str(m.get());
    MC_CHECK(s.begin == m.get() && s.end == m.get() + p.size() && t.begin == s.begin && t.end == s.end, "view of a C string " << show(p));
    check_pair(p, a, s, x);
}
bool pick_null(const str& s) { return s.empty() && mc::flip(); }
}
int main(int argc, char** argv) {
    mc::section("pairs/separate", [] {
        auto a = pick_str(mc::pick(3, 4)), b = pick_str(mc::pick(3, 4)); bool na = pick_null(a), nb = pick_null(b);
        if (mc::pruned()) return;
        placed x(a, na), y(b, nb); check_pair(a, b, x.sv(), y.sv());
    });
    mc::section("pairs/same-storage", [] { // all pairs of windows into one buffer
        auto buf = pick_str(mc::pick(4, 5), 3); int n = int(buf.size());
        int b1 = mc::choose(n + 1), e1 = b1 + mc::choose(n - b1 + 1), b2 = mc::choose(n + 1), e2 = b2 + mc::choose(n - b2 + 1);
        if (mc::pruned()) return;
        placed m(buf, false);
        check_pair(str(buf.begin() + b1, buf.begin() + e1), str(buf.begin() + b2, buf.begin() + e2), dnmx_make_sv_len(m.m.get() + b1, size_t(e1 - b1)), dnmx_make_sv_be(m.m.get() + b2, m.m.get() + e2));
    });
    mc::section("triples/transitivity", [] {
        str s[3]; bool nl[3]; for (int i = 0; i < 3; ++i) { s[i] = pick_str(mc::pick(2, 2), mc::pick(4, 7)); nl[i] = pick_null(s[i]); }
        if (mc::pruned()) return;
        mc::step_();
        placed a(s[0], nl[0]), b(s[1], nl[1]), c(s[2], nl[2]);
        auto le = [](const placed& x, const placed& y) { return dnmx_sv_cmp(x.sv(), y.sv()) <= 0; };
        if (le(a, b) && le(b, c)) MC_CHECK(le(a, c), "order of " << show(s[0]) << ", " << show(s[1]) << ", " << show(s[2]));
        if (a.sv() < b.sv() && b.sv() < c.sv()) MC_CHECK(a.sv() < c.sv(), "< of " << show(s[0]) << ", " << show(s[1]) << ", " << show(s[2]));
        if (dnmx_sv_eq(a.sv(), b.sv()) && dnmx_sv_eq(b.sv(), c.sv())) MC_CHECK(dnmx_sv_eq(a.sv(), c.sv()), "equality of " << show(s[0]));
    });
    mc::section("queries", [] {
        auto a = pick_str(mc::pick(4, 6)); bool na = pick_null(a);
        if (mc::pruned()) return;
        placed x(a, na); check_one(a, x.sv());
    });
    mc::section("queries/windows", [] {
        auto buf = pick_str(mc::pick(5, 7), 3); int n = int(buf.size());
        int b = mc::choose(n + 1), e = b + mc::choose(n - b + 1);
        if (mc::pruned()) return;
        placed m(buf, false); check_one(str(buf.begin() + b, buf.begin() + e), dnmx_make_sv_len(m.m.get() + b, size_t(e - b)));
    });
    mc::section("prefixes", [] {
        auto a = pick_str(mc::pick(3, 4)); bool na = pick_null(a);
        str p; int n = mc::choose(mc::pick(4, 6)); for (int i = 0; i < n; ++i) p.push_back(AL[1 + mc::choose(4)]);
        if (mc::pruned()) return;
        placed x(a, na); check_prefix(a, p, x.sv());
    });
    mc::section("long", [] { // one difference at any place, all relations of lengths
        int n = mc::choose(mc::pick(40, 140)), k = n - 2 + mc::choose(5), at = mc::choose(n + 1), how = mc::choose(4);
        if (k < 0) k = 0;
        if (mc::pruned()) return;
        str a(size_t(n), 'x'), b(size_t(k), 'x');
        if (at < n) a[size_t(at)] = how & 1 ? 0xff : 0;
        if (at < k) b[size_t(at)] = how & 2 ? 0xff : 0;
        placed x(a, false), y(b, false); check_pair(a, b, x.sv(), y.sv()); check_one(a, x.sv());
    });
    mc::section("literals", [] {
        int i = mc::choose(5);
        if (mc::pruned()) return;
        mc::step_();
        if (i == 4) { auto n = dnmx_make_sv_str(nullptr), m = c22_str(nullptr); MC_CHECK(!n.begin && !n.end && !m.begin && !m.end, "null C string"); check_one({}, n); return; }
        const str L[] = {{}, {'a'}, {'a', 'b', 0, 'c'}, {0}};
        dnmx_sv c = i == 0 ? dnmx_make_sv_lit("") : i == 1 ? dnmx_make_sv_lit("a") : i == 2 ? dnmx_make_sv_lit("ab\0c") : dnmx_make_sv_lit("\0");
        check_one(L[i], c); check_one(L[i], c22_lit(i)); check_pair(L[i], L[i], c, c22_lit(i));
    });
    return mc::main_(argc, argv, [] {});
}
