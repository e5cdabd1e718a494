#pragma once
#include <algorithm>
#include <functional>
#include <vector>
namespace itlib {
template <typename Key, typename Compare = std::less<Key>, typename Container = std::vector<Key>>
class flat_set {
    Container m_c;
    Compare m_cmp;
public:
    using iterator = typename Container::const_iterator;
    using value_type = Key;
    flat_set() = default;
    flat_set(std::initializer_list<Key> il) { for (auto& k : il) insert(k); }
    template <typename K> iterator find(const K& k) const {
        auto i = std::lower_bound(m_c.begin(), m_c.end(), k, m_cmp);
        if (i != m_c.end() && !m_cmp(k, *i)) return i;
        return m_c.end();
    }
    std::pair<iterator, bool> insert(Key k) {
        auto i = std::lower_bound(m_c.begin(), m_c.end(), k, m_cmp);
        if (i != m_c.end() && !m_cmp(k, *i)) return {i, false};
        return {m_c.insert(i, std::move(k)), true};
    }
    template <typename... A> auto emplace(A&&... a) { return insert(Key(std::forward<A>(a)...)); }
    template <typename K> size_t count(const K& k) const { return find(k) != m_c.end(); }
    template <typename K> bool contains(const K& k) const { return count(k); }
    size_t erase(const Key& k) { auto i = find(k); if (i == m_c.end()) return 0; m_c.erase(i); return 1; }
    iterator erase(iterator i) { return m_c.erase(i); }
    iterator begin() const { return m_c.begin(); }
    iterator end() const { return m_c.end(); }
    size_t size() const { return m_c.size(); }
    bool empty() const { return m_c.empty(); }
    void clear() { m_c.clear(); }
};
}
