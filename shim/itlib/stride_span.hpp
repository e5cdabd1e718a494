#pragma once
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace itlib {
template <typename T>
class stride_span {
    using byte_t = std::conditional_t<std::is_const_v<T>, const unsigned char, unsigned char>;
    byte_t* m_data = nullptr;
    size_t m_size = 0;
    size_t m_stride = sizeof(T);
public:
    using value_type = std::remove_cv_t<T>;
    stride_span() = default;
    stride_span(T* p, size_t n, size_t stride) : m_data(reinterpret_cast<byte_t*>(p)), m_size(n), m_stride(stride) {}
    size_t size() const noexcept { return m_size; }
    size_t stride() const noexcept { return m_stride; }
    bool empty() const noexcept { return !m_size; }
    T& operator[](size_t i) const noexcept { return *reinterpret_cast<T*>(m_data + i * m_stride); }
    T& at(size_t i) const noexcept { return (*this)[i]; }
    T& front() const noexcept { return (*this)[0]; }
    T& back() const noexcept { return (*this)[m_size - 1]; }
    class iterator {
        byte_t* m_p = nullptr; size_t m_s = 0;
    public:
        using iterator_category = std::random_access_iterator_tag;
        using value_type = std::remove_cv_t<T>;
        using difference_type = ptrdiff_t;
        using pointer = T*;
        using reference = T&;
        iterator() = default;
        iterator(byte_t* p, size_t s) : m_p(p), m_s(s) {}
        T& operator*() const { return *reinterpret_cast<T*>(m_p); }
        T* operator->() const { return reinterpret_cast<T*>(m_p); }
        T& operator[](ptrdiff_t d) const { return *(*this + d); }
        iterator& operator++() { m_p += m_s; return *this; }
        iterator operator++(int) { auto r = *this; ++*this; return r; }
        iterator& operator--() { m_p -= m_s; return *this; }
        iterator operator--(int) { auto r = *this; --*this; return r; }
        iterator& operator+=(ptrdiff_t d) { m_p += d * ptrdiff_t(m_s); return *this; }
        iterator& operator-=(ptrdiff_t d) { m_p -= d * ptrdiff_t(m_s); return *this; }
        friend iterator operator+(iterator a, ptrdiff_t d) { a += d; return a; }
        friend iterator operator+(ptrdiff_t d, iterator a) { a += d; return a; }
        friend iterator operator-(iterator a, ptrdiff_t d) { a -= d; return a; }
        friend ptrdiff_t operator-(const iterator& a, const iterator& b) { return (a.m_p - b.m_p) / ptrdiff_t(a.m_s); }
        friend bool operator==(const iterator& a, const iterator& b) { return a.m_p == b.m_p; }
        friend bool operator!=(const iterator& a, const iterator& b) { return a.m_p != b.m_p; }
        friend bool operator<(const iterator& a, const iterator& b) { return a.m_p < b.m_p; }
    };
    iterator begin() const noexcept { return {m_data, m_stride}; }
    iterator end() const noexcept { return {m_data + m_size * m_stride, m_stride}; }
};
template <typename T> stride_span<T> make_stride_span(T* p, size_t n, size_t stride = sizeof(T)) { return {p, n, stride}; }
template <typename S, typename M>
auto make_stride_span_member_view(S* p, size_t n, M std::remove_const_t<S>::*m) {
    using E = std::conditional_t<std::is_const_v<S>, const M, M>;
    if (!n) return stride_span<E>(nullptr, 0, sizeof(S));
    return stride_span<E>(&(p->*m), n, sizeof(S));
}
}
