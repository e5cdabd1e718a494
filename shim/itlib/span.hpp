#pragma once
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <cassert>
namespace itlib {
template <typename T>
class span {
public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using size_type = size_t;
    using difference_type = ptrdiff_t;
    using pointer = T*;
    using const_pointer = const T*;
    using reference = T&;
    using iterator = T*;
    using const_iterator = T*;
    using reverse_iterator = std::reverse_iterator<iterator>;

    constexpr span() noexcept : m_begin(nullptr), m_end(nullptr) {}
    constexpr span(std::nullptr_t) noexcept : span() {}
    constexpr span(const span&) noexcept = default;
    constexpr span& operator=(const span&) noexcept = default;
    constexpr span(T* p, size_t n) noexcept : m_begin(p), m_end(p + n) {}
    constexpr span(T* b, T* e) noexcept : m_begin(b), m_end(e) {}
    template <size_t N>
    constexpr span(T (&ar)[N]) noexcept : m_begin(ar), m_end(ar + N) {}
    template <typename C, typename D = decltype(std::declval<C&>().data()),
        typename S = decltype(std::declval<C&>().size()),
        typename = std::enable_if_t<!std::is_same_v<std::remove_cv_t<std::remove_reference_t<C>>, span> && std::is_convertible_v<std::remove_pointer_t<D>(*)[], T(*)[]>>>
    constexpr span(C&& c) noexcept : m_begin(c.data()), m_end(c.data() + c.size()) {}

    constexpr T* data() const noexcept { return m_begin; }
    constexpr size_t size() const noexcept { return size_t(m_end - m_begin); }
    constexpr size_t size_bytes() const noexcept { return size() * sizeof(T); }
    [[nodiscard]] constexpr bool empty() const noexcept { return m_begin == m_end; }
    constexpr explicit operator bool() const noexcept { return !!m_begin; }
    constexpr T* begin() const noexcept { return m_begin; }
    constexpr T* end() const noexcept { return m_end; }
    constexpr const T* cbegin() const noexcept { return m_begin; }
    constexpr const T* cend() const noexcept { return m_end; }
    reverse_iterator rbegin() const noexcept { return reverse_iterator(m_end); }
    reverse_iterator rend() const noexcept { return reverse_iterator(m_begin); }
    constexpr T& operator[](size_t i) const noexcept { assert(i < size()); return m_begin[i]; }
    constexpr T& at(size_t i) const noexcept { assert(i < size()); return m_begin[i]; }
    constexpr T& front() const noexcept { assert(!empty()); return *m_begin; }
    constexpr T& back() const noexcept { assert(!empty()); return *(m_end - 1); }
    constexpr span subspan(size_t off, size_t n = size_t(-1)) const noexcept {
        if (n == size_t(-1)) n = size() - off;
        return span(m_begin + off, n);
    }
    constexpr span first(size_t n) const noexcept { return span(m_begin, n); }
    constexpr span last(size_t n) const noexcept { return span(m_end - n, n); }
    void remove_prefix(size_t n) noexcept { m_begin += n; }
    void remove_suffix(size_t n) noexcept { m_end -= n; }
private:
    T* m_begin;
    T* m_end;
};
template <typename T> span(T*, size_t) -> span<T>;
template <typename T> span(T*, T*) -> span<T>;
template <typename C> span(C&& c) -> span<std::remove_pointer_t<decltype(c.data())>>;
template <typename T> span<T> make_span(T* p, size_t n) { return span<T>(p, n); }
template <typename C> auto make_span(C& c) { return span<std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size()); }
template <typename T> span<const std::byte> as_bytes(span<T> s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size_bytes()}; }
}
