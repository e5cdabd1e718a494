#pragma once
#include <algorithm>
#include <numeric>
#include <iterator>
#include <utility>
namespace itlib {
template <typename C, typename V> auto qfind(C&& c, const V& v) { return std::find(std::begin(c), std::end(c), v); }
template <typename C, typename P> auto qfind_if(C&& c, P&& p) { return std::find_if(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename V>
auto pfind(C&& c, const V& v) -> decltype(&*std::begin(c)) {
    for (auto& e : c) if (e == v) return &e;
    return nullptr;
}
template <typename C, typename P>
auto pfind_if(C&& c, P&& p) -> decltype(&*std::begin(c)) {
    for (auto& e : c) if (p(e)) return &e;
    return nullptr;
}
template <typename C, typename P>
auto erase_all_if(C& c, P&& p) {
    auto n = c.size();
    c.erase(std::remove_if(c.begin(), c.end(), std::forward<P>(p)), c.end());
    return n - c.size();
}
template <typename C, typename V>
auto erase_all(C& c, const V& v) {
    auto n = c.size();
    c.erase(std::remove(c.begin(), c.end(), v), c.end());
    return n - c.size();
}
template <typename C, typename V>
bool erase_first(C& c, const V& v) {
    auto f = std::find(c.begin(), c.end(), v);
    if (f == c.end()) return false;
    c.erase(f);
    return true;
}
template <typename C, typename P>
bool erase_first_if(C& c, P&& p) {
    auto f = std::find_if(c.begin(), c.end(), std::forward<P>(p));
    if (f == c.end()) return false;
    c.erase(f);
    return true;
}
template <typename C, typename P> bool qall_of(const C& c, P&& p) { return std::all_of(c.begin(), c.end(), std::forward<P>(p)); }
template <typename C, typename P> bool qany_of(const C& c, P&& p) { return std::any_of(c.begin(), c.end(), std::forward<P>(p)); }
template <typename C, typename P> bool qnone_of(const C& c, P&& p) { return std::none_of(c.begin(), c.end(), std::forward<P>(p)); }
template <typename C, typename V> bool qcontains(const C& c, const V& v) { return std::find(c.begin(), c.end(), v) != c.end(); }
template <typename C, typename V> auto qcount(const C& c, const V& v) { return std::count(c.begin(), c.end(), v); }
template <typename C, typename P> auto qcount_if(const C& c, P&& p) { return std::count_if(c.begin(), c.end(), std::forward<P>(p)); }
template <typename C, typename V> auto qaccumulate(const C& c, V v) { return std::accumulate(c.begin(), c.end(), v); }
template <typename C> void qsort(C& c) { std::sort(c.begin(), c.end()); }
template <typename C, typename P> void qsort(C& c, P&& p) { std::sort(c.begin(), c.end(), std::forward<P>(p)); }
template <typename C, typename P> auto qmax_element(C& c, P&& p) { return std::max_element(c.begin(), c.end(), std::forward<P>(p)); }
template <typename C, typename P> auto qmin_element(C& c, P&& p) { return std::min_element(c.begin(), c.end(), std::forward<P>(p)); }
}
