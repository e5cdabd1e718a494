#pragma once
#include <atomic>
// VSHIM_ATOMIC_POINT: scheduling point hook for the controlled-scheduler harness
#if !defined(VSHIM_ATOMIC_POINT)
#define VSHIM_ATOMIC_POINT(p)
#endif
namespace itlib {
template <typename I>
class atomic_relaxed_counter {
    std::atomic<I> m_c;
public:
    atomic_relaxed_counter(I i = I(0)) noexcept : m_c(i) {}
    atomic_relaxed_counter(const atomic_relaxed_counter& o) noexcept : m_c(o.load()) {}
    I load() const noexcept { VSHIM_ATOMIC_POINT(this); return m_c.load(std::memory_order_relaxed); }
    operator I() const noexcept { return load(); }
    void store(I i) noexcept { VSHIM_ATOMIC_POINT(this); m_c.store(i, std::memory_order_relaxed); }
    I operator=(I i) noexcept { store(i); return i; }
    I fetch_add(I n) noexcept { VSHIM_ATOMIC_POINT(this); return m_c.fetch_add(n, std::memory_order_relaxed); }
    I fetch_sub(I n) noexcept { VSHIM_ATOMIC_POINT(this); return m_c.fetch_sub(n, std::memory_order_relaxed); }
    I operator++() noexcept { return fetch_add(1) + 1; }
    I operator++(int) noexcept { return fetch_add(1); }
    I operator--() noexcept { return fetch_sub(1) - 1; }
    I operator--(int) noexcept { return fetch_sub(1); }
    I operator+=(I n) noexcept { return fetch_add(n) + n; }
    I operator-=(I n) noexcept { return fetch_sub(n) - n; }
};
}
