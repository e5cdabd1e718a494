#pragma once
// minimal stand-in, used only to run upstream's unit tests over /verif/shim
#include <doctest/doctest.h>
#include <initializer_list>
#include <atomic>
namespace doctest::util {
struct lifetime_stats {
    int total = 0, living = 0, d_ctr = 0, c_ctr = 0, m_ctr = 0, c_asgn = 0, m_asgn = 0, copies = 0;
};
template <typename T>
class lifetime_counter {
public:
    struct lifetime_stats : public util::lifetime_stats {
        lifetime_stats* prev;
        lifetime_stats() : prev(cur()) { cur() = this; }
        ~lifetime_stats() { cur() = prev; }
        lifetime_stats(const lifetime_stats&) = delete;
        static lifetime_stats*& cur() { static lifetime_stats* c = nullptr; return c; }
    };
    static lifetime_stats& root() { static lifetime_stats r; return r; }
    template <typename F> static void each(F f) { root(); for (auto s = lifetime_stats::cur(); s; s = s->prev) f(*s); }
    lifetime_counter() noexcept { each([](auto& s) { ++s.d_ctr; ++s.total; ++s.living; }); }
    lifetime_counter(const lifetime_counter&) noexcept { each([](auto& s) { ++s.c_ctr; ++s.copies; ++s.total; ++s.living; }); }
    lifetime_counter& operator=(const lifetime_counter&) noexcept { each([](auto& s) { ++s.c_asgn; ++s.copies; }); return *this; }
    lifetime_counter(lifetime_counter&&) noexcept { each([](auto& s) { ++s.m_ctr; ++s.total; ++s.living; }); }
    lifetime_counter& operator=(lifetime_counter&&) noexcept { each([](auto& s) { ++s.m_asgn; }); return *this; }
    ~lifetime_counter() { each([](auto& s) { --s.living; }); }
};
struct lifetime_counter_sentry {
    const lifetime_stats& s; int living;
    lifetime_counter_sentry(const lifetime_stats& st) : s(st), living(st.living) {}
    ~lifetime_counter_sentry() { CHECK(living == s.living); }
};
}
