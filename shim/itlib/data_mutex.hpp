#pragma once
#include <mutex>
#include <shared_mutex>
#include <utility>
namespace itlib {
template <typename T, typename Lock>
class data_lock {
    T* m_data;
    Lock m_lock;
public:
    data_lock(T& d, Lock l) : m_data(&d), m_lock(std::move(l)) {}
    data_lock(data_lock&& o) noexcept = default;
    data_lock& operator=(data_lock&& o) noexcept = default;
    T* operator->() const noexcept { return m_data; }
    T& operator*() const noexcept { return *m_data; }
    explicit operator bool() const noexcept { return m_lock.owns_lock(); }
    Lock& lock() noexcept { return m_lock; }
    void unlock() { m_lock.unlock(); }
};
template <typename T, typename Mutex = std::mutex>
class data_mutex {
    T m_data;
    mutable Mutex m_mutex;
public:
    template <typename... Args>
    explicit data_mutex(Args&&... args) : m_data(std::forward<Args>(args)...) {}
    data_mutex(const data_mutex&) = delete;
    data_mutex& operator=(const data_mutex&) = delete;
    using unique_lock_t = data_lock<T, std::unique_lock<Mutex>>;
    using shared_lock_t = data_lock<const T, std::shared_lock<Mutex>>;
    unique_lock_t unique_lock() { return unique_lock_t(m_data, std::unique_lock<Mutex>(m_mutex)); }
    unique_lock_t try_unique_lock() { return unique_lock_t(m_data, std::unique_lock<Mutex>(m_mutex, std::try_to_lock)); }
    shared_lock_t shared_lock() const { return shared_lock_t(m_data, std::shared_lock<Mutex>(m_mutex)); }
    shared_lock_t try_shared_lock() const { return shared_lock_t(m_data, std::shared_lock<Mutex>(m_mutex, std::try_to_lock)); }
    T& _unsafe_get() noexcept { return m_data; }
    const T& _unsafe_get() const noexcept { return m_data; }
};
}
