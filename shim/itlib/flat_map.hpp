#pragma once
#include <algorithm>
#include <functional>
#include <utility>
#include <vector>
#include <stdexcept>
#include <tuple>
namespace itlib {
template <typename Key, typename T, typename Compare = std::less<Key>, typename Container = std::vector<std::pair<Key, T>>>
class flat_map {
    Container m_c;
    Compare m_cmp;
public:
    using key_type = Key;
    using mapped_type = T;
    using value_type = std::pair<Key, T>;
    using iterator = typename Container::iterator;
    using const_iterator = typename Container::const_iterator;
    using size_type = size_t;
    flat_map() = default;
    explicit flat_map(const Compare& c) : m_cmp(c) {}
    template <typename A> flat_map(const Compare& c, const A& a) : m_c(a), m_cmp(c) {}
    iterator begin() noexcept { return m_c.begin(); }
    iterator end() noexcept { return m_c.end(); }
    const_iterator begin() const noexcept { return m_c.begin(); }
    const_iterator end() const noexcept { return m_c.end(); }
    const_iterator cbegin() const noexcept { return m_c.begin(); }
    const_iterator cend() const noexcept { return m_c.end(); }
    auto rbegin() noexcept { return m_c.rbegin(); }
    auto rend() noexcept { return m_c.rend(); }
    auto rbegin() const noexcept { return m_c.rbegin(); }
    auto rend() const noexcept { return m_c.rend(); }
    size_t size() const noexcept { return m_c.size(); }
    [[nodiscard]] bool empty() const noexcept { return m_c.empty(); }
    void clear() noexcept { m_c.clear(); }
    void reserve(size_t n) { m_c.reserve(n); }
    template <typename K> iterator lower_bound(const K& k) {
        return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const value_type& v, const K& kk) { return m_cmp(v.first, kk); });
    }
    template <typename K> const_iterator lower_bound(const K& k) const {
        return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const value_type& v, const K& kk) { return m_cmp(v.first, kk); });
    }
    template <typename K> iterator find(const K& k) {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, i->first)) return i;
        return end();
    }
    template <typename K> const_iterator find(const K& k) const {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, i->first)) return i;
        return end();
    }
    template <typename K> size_t count(const K& k) const { return find(k) == end() ? 0 : 1; }
    template <typename K> bool contains(const K& k) const { return find(k) != end(); }
    T& operator[](const Key& k) {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, i->first)) return i->second;
        return m_c.emplace(i, k, T{})->second;
    }
    template <typename... Args>
    std::pair<iterator, bool> emplace(const Key& k, Args&&... args) {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, i->first)) return {i, false};
        return {m_c.emplace(i, k, T{std::forward<Args>(args)...}), true};
    }
    template <typename... Args>
    std::pair<iterator, bool> try_emplace(const Key& k, Args&&... args) { return emplace(k, std::forward<Args>(args)...); }
    std::pair<iterator, bool> insert(value_type v) {
        auto i = lower_bound(v.first);
        if (i != end() && !m_cmp(v.first, i->first)) return {i, false};
        return {m_c.insert(i, std::move(v)), true};
    }
    template <typename K> T& at(const K& k) {
        auto i = find(k); if (i == end()) throw std::out_of_range("flat_map"); return i->second;
    }
    iterator erase(iterator i) { return m_c.erase(i); }
    iterator erase(const_iterator i) { return m_c.erase(i); }
    size_t erase(const Key& k) { auto i = find(k); if (i == end()) return 0; m_c.erase(i); return 1; }
    const Container& container() const noexcept { return m_c; }
};
}
