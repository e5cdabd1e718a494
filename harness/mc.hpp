// Bounded exhaustive explorer: the body of a section is run once for EVERY sequence of answers to mc::choose().
// (stateless depth-first search by re-execution, optional pruning of already explored states, parallel by prefix)
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace mc {
extern bool thorough;       // tier
extern bool recording;      // replay mode: steps are logged

inline int pick(int quick, int deep) { return thorough ? deep : quick; }

// one nondeterministic choice out of n (n >= 1)
int choose(int n);
inline bool flip() { return choose(2) == 1; }

// true when the current execution isn't ours to explore (other worker's partition): the body may return early
bool pruned();
// false while this execution repeats the beginning of the previous one of this worker: checks of the state (without effects) may be skipped
bool is_new();
// index of this worker process
int worker();

// returns false if this state has already been explored with at least this much remaining depth
bool visit(const std::string& key, int remaining);

// counts a distinct outcome (evidence only)
void outcome(const std::string& key);

// report a violation; never returns
[[noreturn]] void fail(const std::string& msg);

// Things which can only be moved. If code with them doesn't compile, the check builds the harness again with
// MC_COPY_IS_FAILURE: then they can be copied, but doing so is a violation.
#ifdef MC_COPY_IS_FAILURE
template <typename T> struct uptr {
    std::unique_ptr<T> p;
    uptr() = default; explicit uptr(T* t) : p(t) {} uptr(std::unique_ptr<T> t) : p(std::move(t)) {}
    uptr(uptr&&) = default; uptr& operator=(uptr&&) = default;
    uptr(const uptr&) { fail("something which can only be moved is copied"); } uptr& operator=(const uptr&) { fail("something which can only be moved is copied"); }
    T& operator*() const { return *p; } T* operator->() const { return p.get(); } T* get() const { return p.get(); } explicit operator bool() const { return !!p; }
};
#define MC_MOVE_ONLY_BODY { ::mc::fail("something which can only be moved is copied"); }
#else
template <typename T> using uptr = std::unique_ptr<T>;
#define MC_MOVE_ONLY_BODY = delete;
#endif

// one operation of the system under test
void step_();
void progress(); // a long step is under way
void log_(const std::string& s);

struct section_opts {
    int split = 9; // at most this many leading choices are used for distributing the work among workers
};
void section(std::string name, std::function<void()> body, section_opts = {});

int main_(int argc, char** argv, std::function<void()> setup);

// called in each worker before exploration / after exploration
extern std::function<void()> on_worker_end;
}

#define MC_STR(x) ([&]{ std::ostringstream mc_os_; mc_os_ << x; return mc_os_.str(); }())
#define MC_STEP(x) do { ::mc::step_(); if (::mc::recording) ::mc::log_(MC_STR(x)); } while (0)
#define MC_LOG(x) do { if (::mc::recording) ::mc::log_(MC_STR(x)); } while (0)
#define MC_CHECK(cond, x) do { if (!(cond)) ::mc::fail(MC_STR(x << "  [" #cond "]")); } while (0)
#define MC_EQ(a, b, x) do { auto mc_a_ = (a); auto mc_b_ = (b); if (!(mc_a_ == mc_b_)) ::mc::fail(MC_STR(x << ": got " << mc_a_ << " expected " << mc_b_ << "  [" #a " == " #b "]")); } while (0)
