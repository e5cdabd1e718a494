// Runs thread bodies under the controlled scheduler. (This header is instrumented: starting and finishing the threads is
// synchronization which ThreadSanitizer must see.)
#pragma once
#include "sched_core.hpp"
#include "kit.hpp"
#include <atomic>
#include <thread>
#include <unistd.h>

// a data race ends the process: the execution is a violation
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:detect_deadlocks=0:report_signal_unsafe=0:history_size=3"; }

namespace sched {
struct pool {
    std::atomic<int> started[MAXT] = {}, finished[MAXT] = {};
    int word[MAXT] = {};
    int made = 0, round = 0;
    std::function<void(int)> body;
    void ensure(int n) {
        if (!made) pin(mc::worker());
        while (made < n) {
            int i = made++;
            std::thread([this, i] {
                for (int r = 1; ; ++r) {
                    core_pool_wait(&word[i]);
                    started[i].load(std::memory_order_acquire);
                    core_thread_begin(i);
                    body(i);
                    core_quiet();
                    finished[i].store(r, std::memory_order_release);
                    core_thread_end();
                }
            }).detach();
        }
    }
    void run(int n, std::function<void(int)> f) {
        ensure(n);
        body = std::move(f);
        core_begin(n);
        ++round;
        for (int i = 0; i < n; ++i) { started[i].store(round, std::memory_order_release); core_pool_wake(&word[i]); }
        core_run();
        for (int i = 0; i < n; ++i) finished[i].load(std::memory_order_acquire);
        body = nullptr;
    }
};
// runs f(0) .. f(n-1) in n threads in a schedule which is chosen by mc::choose
inline void run(int n, std::function<void(int)> f) { static auto p = new pool; p->run(n, std::move(f)); }

// the default resource: no synchronization inside
#if DYNAMIX_HAS_PMR
struct cres final : std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t a) override { return mem_alloc(n, a); }
    void do_deallocate(void* p, size_t n, size_t) override { mem_free(p, n); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
inline void setup() { static cres r; std::pmr::set_default_resource(&r); }
#endif

// ---------------------------------------------------------------- linearizability
// an operation as it was observed: it took effect at one moment between begin and end
template <typename Model, typename Op>
struct history {
    struct item { int thread; Op op; std::string result; unsigned long begin = 0, end = 0; };
    std::vector<std::vector<item>> ops; // per thread
    explicit history(int n) : ops(size_t(n)) {}
    // apply(model, op, thread) -> result; final(model) -> must equal `final_state`
    template <typename Apply, typename Final>
    bool linearizable(const Model& m, Apply apply, Final fin, const std::string& final_state) const {
        std::vector<size_t> at(ops.size(), 0);
        return go(m, at, apply, fin, final_state);
    }
    template <typename Apply, typename Final>
    bool go(const Model& m, std::vector<size_t>& at, Apply& apply, Final& fin, const std::string& final_state) const {
        bool any = false;
        for (size_t t = 0; t < ops.size(); ++t) {
            if (at[t] >= ops[t].size()) continue;
            any = true;
            auto& it = ops[t][at[t]];
            bool ok = true; // no other pending operation has ended before this one began
            for (size_t u = 0; u < ops.size() && ok; ++u) if (u != t && at[u] < ops[u].size() && ops[u][at[u]].end < it.begin) ok = false;
            if (!ok) continue;
            Model c = m;
            if (apply(c, it.op, int(t)) != it.result) continue;
            ++at[t];
            bool r = go(c, at, apply, fin, final_state);
            --at[t];
            if (r) return true;
        }
        return !any && fin(m) == final_state;
    }
    std::string str() const {
        std::string r;
        for (size_t t = 0; t < ops.size(); ++t) { r += "; thread " + std::to_string(t) + ":"; for (auto& i : ops[t]) r += " " + i.op.str() + " [" + std::to_string(i.begin) + "," + std::to_string(i.end) + "] -> " + i.result + ","; }
        return r;
    }
};
}
