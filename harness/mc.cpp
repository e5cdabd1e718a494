#include "mc.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <algorithm>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#endif

namespace mc {
bool thorough = false;
bool recording = false;
std::function<void()> on_worker_end;

namespace {
constexpr size_t MAXTRACE = 8192, MAXMSG = 4000;
struct shared_worker {
    int trace_len;
    uint16_t trace[MAXTRACE];
    char msg[MAXMSG];
    volatile uint64_t progress;
    uint64_t executions, transitions, choices, maxdepth;
    int done, capped;
    int nsamples; uint64_t sample_hash[4];
    int sample_len[4]; uint16_t sample[4][128];
};
struct shared_tab { std::atomic<uint64_t> count, full; std::atomic<uint64_t> slot[1]; };
constexpr size_t TAB = size_t(1) << 25;
shared_tab *g_states, *g_outcomes;
shared_worker* g_w; // own
uint64_t g_steps = 0; // transitions of this execution; they count if it is one of this worker
int g_worker = 0, g_workers = 1, g_split = 3;

// plain arrays: choose() is also called by the threads of the controlled scheduler, where no instrumented code may be shared
struct arr { int v[MAXTRACE]; size_t n; int& operator[](size_t i) { return v[i]; } size_t size() const { return n; } void push_back(int x) { v[n++] = x; } void pop_back() { --n; } int& back() { return v[n - 1]; } bool empty() const { return !n; } void clear() { n = 0; } void resize(size_t k) { n = k; } };
arr path, width;
size_t pos, fresh; // fresh: index of first choice not replayed
bool g_pruned, g_decided, g_replay, g_stop; double g_combos; size_t g_replay_len;
double g_deadline;

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

uint64_t hash_bytes(const char* p, size_t n, uint64_t h = 0x9E3779B97F4A7C15ull) {
    for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 0x100000001B3ull; h ^= h >> 29; }
    h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32;
    return h;
}

shared_tab* newtab() {
    auto p = mmap(nullptr, sizeof(shared_tab) + TAB * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (shared_tab*)p;
}
// returns true if newly inserted (or with greater depth)
bool tab_put(shared_tab* t, uint64_t h, unsigned rem, bool& isnew) {
    isnew = false;
    if (t->full.load()) return true;
    uint64_t tag = h & ~uint64_t(0xFF); if (!tag) tag = 0x100;
    uint64_t val = tag | (rem > 254 ? 254 : rem);
    size_t i = (h >> 20) & (TAB - 1);
    for (;;) {
        uint64_t cur = t->slot[i].load();
        if (cur == 0) {
            if (t->slot[i].compare_exchange_strong(cur, val)) {
                isnew = true;
                if (t->count.fetch_add(1) > TAB * 3 / 4) t->full.store(1);
                return true;
            }
        }
        if ((cur & ~uint64_t(0xFF)) == tag) {
            for (;;) {
                if ((cur & 0xFF) >= (val & 0xFF)) return false;
                if (t->slot[i].compare_exchange_strong(cur, val)) return true;
            }
        }
        i = (i + 1) & (TAB - 1);
    }
}

bool mine(size_t n) {
    if (g_workers == 1) return true;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) h = hash_bytes((const char*)&path[i], sizeof(int), h);
    h = hash_bytes((const char*)&n, sizeof(n), h);
    return int(h % uint64_t(g_workers)) == g_worker;
}
struct sec { std::string name; std::function<void()> body; section_opts o; };
std::vector<sec> secs;
} // namespace

int choose(int n) {
    if (n < 1) fail("internal: choose from nothing");
    if (n == 1) return 0;
    ++g_w->progress;
    if (g_pruned) return 0;
    int r;
    if (pos < path.size()) {
        r = path[pos];
        if (g_replay) { if (r >= n) r = n - 1; width[pos] = n; }
        else if (width[pos] != n) { fail(MC_STR("internal: nondeterministic execution (choice " << pos << " had " << width[pos] << " options, now " << n << ")")); }
    }
    else {
        if (path.size() >= MAXTRACE - 1) fail("internal: trace too long");
        path.push_back(0); width.push_back(n); r = 0;
    }
    g_w->trace[pos] = uint16_t(r);
    ++pos;
    g_w->trace_len = int(pos);
    ++g_w->choices;
    if (!g_replay && !g_decided) {
        // the executions are distributed among the workers by their first choices: as few of them as give enough combinations
        g_combos *= n;
        if (g_combos >= 400 || int(pos) >= g_split) { g_decided = true; if (!mine(pos)) g_pruned = true; }
    }
    return r;
}
bool pruned() { return g_pruned; }
int worker() { return g_worker; }
bool is_new() { return g_replay || (!g_pruned && pos >= fresh); }

bool visit(const std::string& key, int remaining) {
    if (g_replay) return !(g_stop && pos >= g_replay_len);
    if (g_pruned) return false;
    if (!g_decided) return true;
    if (pos < fresh) return true; // replayed prefix
    bool isnew;
    return tab_put(g_states, hash_bytes(key.data(), key.size()), unsigned(remaining), isnew);
}
void outcome(const std::string& key) {
    if (g_replay || g_pruned) return;
    bool isnew;
    tab_put(g_outcomes, hash_bytes(key.data(), key.size()), 0, isnew);
}
void fail(const std::string& msg) {
    snprintf(g_w->msg, MAXMSG, "%s", msg.c_str());
    if (recording) { printf("VIOLATED: %s\n", msg.c_str()); fflush(stdout); }
    _exit(77);
}
void progress() { ++g_w->progress; }
void step_() { ++g_w->progress; if (!g_pruned && pos >= fresh) ++g_steps; }
void log_(const std::string& s) { printf("  %s\n", s.c_str()); fflush(stdout); }

void section(std::string name, std::function<void()> body, section_opts o) { secs.push_back({name, std::move(body), o}); }

namespace {
void run_body(const sec& s) {
    try { s.body(); }
    catch (std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
    catch (...) { fail("unexpected exception of unknown type"); }
}
void leak_check() {
#if defined(__SANITIZE_ADDRESS__)
    if (__lsan_do_recoverable_leak_check()) fail("memory leak (LeakSanitizer; found at the end of the exploration of a partition)");
#endif
}
void explore(const sec& s) {
    path.clear(); width.clear(); fresh = 0; g_split = s.o.split;
    for (;;) {
        pos = 0; g_pruned = g_decided = false; g_combos = 1; g_steps = 0;
        run_body(s);
        path.resize(pos); width.resize(pos);
        if (!g_pruned && !g_decided && !mine(pos)) g_pruned = true;
        if (!g_pruned) {
            ++g_w->executions; g_w->transitions += g_steps;
            if (pos > g_w->maxdepth) g_w->maxdepth = pos;
            if (g_w->nsamples < 4 && pos < 128 && (g_w->executions & (g_w->executions - 1)) == 0 && g_w->executions >= (1u << (3 * g_w->nsamples))) {
                int k = g_w->nsamples++; g_w->sample_len[k] = int(pos);
                for (size_t i = 0; i < pos; ++i) g_w->sample[k][i] = uint16_t(path[i]);
            }
        }
        // next
        while (!path.empty() && path.back() + 1 >= width.back()) { path.pop_back(); width.pop_back(); }
        if (path.empty()) break;
        ++path.back();
        fresh = path.size();
        if ((g_w->executions & 63) == 0 && now() > g_deadline) { g_w->capped = 1; break; }
    }
    leak_check();
    if (on_worker_end) on_worker_end();
}
std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += ' '; else r += char(c); }
    return r;
}
} // namespace

int main_(int argc, char** argv, std::function<void()> setup) {
    std::string only, replay, out, errdir = "/tmp";
    double cap = 600, hang = 60, least = 5;
    int workers = int(sysconf(_SC_NPROCESSORS_ONLN));
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--thorough") thorough = true;
        else if (a == "--section") only = val();
        else if (a == "--replay") replay = val();
        else if (a == "--out") out = val();
        else if (a == "--errdir") errdir = val();
        else if (a == "--cap") cap = atof(val().c_str());
        else if (a == "--least") least = atof(val().c_str()); // seconds which every section gets, even if the cap is exceeded
        else if (a == "--hang") hang = atof(val().c_str());
        else if (a == "--stop") g_stop = true; // replay of a sample: end where the recorded execution ended
        else if (a == "--workers") workers = atoi(val().c_str());
    }
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    setup();
    auto smem = (shared_worker*)mmap(nullptr, sizeof(shared_worker) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (workers > 64) workers = 64;
    if (workers < 1) workers = 1;
    g_w = smem;

    if (!replay.empty()) {
        recording = g_replay = true; g_split = 0;
        for (auto& s : secs) {
            if (s.name != only) continue;
            std::istringstream is(replay); std::string t;
            while (std::getline(is, t, ',')) { if (t.empty() || t == "-") continue; path.push_back(atoi(t.c_str())); width.push_back(0); }
            pos = 0; fresh = 0; g_replay_len = path.size();
            printf("replay section %s\n", s.name.c_str()); fflush(stdout);
            run_body(s);
            leak_check();
            if (on_worker_end) on_worker_end();
            printf("replay finished without violation\n");
            return 0;
        }
        fprintf(stderr, "no such section %s\n", only.c_str());
        return 2;
    }

    double t0 = now();
    FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(fo, "{\"sections\":[");
    bool first = true, violated = false;
    int left = 0; for (auto& s : secs) if (only.empty() || s.name == only) ++left;
    for (auto& s : secs) {
        if (!only.empty() && s.name != only) continue;
        double ts = now();
        g_deadline = ts + std::max(least, (t0 + cap - ts) / double(left--)); // what remains is shared evenly by the remaining sections
        g_states = newtab(); g_outcomes = newtab();
        memset((void*)smem, 0, sizeof(shared_worker) * size_t(workers));
        std::map<pid_t, int> kids;
        fflush(nullptr);
        for (int w = 0; w < workers; ++w) {
            pid_t p = fork();
            if (p == 0) {
                g_worker = w; g_workers = workers; g_w = smem + w;
                std::string ef = errdir + "/w" + std::to_string(w) + ".err";
                int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
                explore(s);
                g_w->done = 1;
                fflush(nullptr);
                _exit(0);
            }
            if (p < 0) { perror("fork"); return 2; }
            kids[p] = w;
        }
        int bad = -1; std::string why;
        std::vector<uint64_t> lastp(size_t(workers), 0); std::vector<double> lastt(size_t(workers), now());
        while (!kids.empty()) {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                int w = kids[p]; kids.erase(p);
                bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && smem[w].done;
                if (!ok && bad < 0) {
                    bad = w;
                    if (smem[w].msg[0]) why = smem[w].msg;
                    else {
                        why = WIFSIGNALED(st) ? MC_STR("killed by signal " << WTERMSIG(st)) : MC_STR("exited with status " << WEXITSTATUS(st));
                        std::string ef = errdir + "/w" + std::to_string(w) + ".err";
                        if (FILE* f = fopen(ef.c_str(), "r")) {
                            char line[1000];
                            while (fgets(line, sizeof line, f)) if (strstr(line, "ERROR") || strstr(line, "runtime error") || strstr(line, "Assertion") || strstr(line, "terminate") || strstr(line, "WARNING: ThreadSanitizer") || strstr(line, "what()") || strstr(line, "SUMMARY")) { why += " | "; why += line; if (why.size() > 1200) break; }
                            fclose(f);
                        }
                    }
                    for (auto& k : kids) kill(k.first, SIGKILL);
                }
                continue;
            }
            usleep(20000);
            for (auto& k : kids) {
                auto w = size_t(k.second);
                if (smem[w].progress != lastp[w]) { lastp[w] = smem[w].progress; lastt[w] = now(); }
                else if (now() - lastt[w] > hang && bad < 0) {
                    bad = int(w); why = "no progress: an operation does not terminate";
                    for (auto& kk : kids) kill(kk.first, SIGKILL);
                }
            }
        }
        uint64_t ex = 0, tr = 0, ch = 0, md = 0; int capd = 0;
        for (int w = 0; w < workers; ++w) { ex += smem[w].executions; tr += smem[w].transitions; ch += smem[w].choices; capd |= smem[w].capped; if (smem[w].maxdepth > md) md = smem[w].maxdepth; }
        fprintf(fo, "%s\n{\"name\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"choices\":%llu,\"states\":%llu,\"outcomes\":%llu,\"max_choices\":%llu,\"capped\":%s,\"wall_s\":%.2f",
            first ? "" : ",", s.name.c_str(), (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)ch, (unsigned long long)g_states->count.load(),
            (unsigned long long)g_outcomes->count.load(), (unsigned long long)md, capd ? "true" : "false", now() - ts);
        first = false;
        fprintf(fo, ",\"samples\":[");
        bool fs = true; int emitted = 0;
        for (int w = 0; w < workers && emitted < 5; ++w) for (int k = smem[w].nsamples; k-- > 0 && emitted < 5; ) {
            if (k < 1 && emitted) continue;
            fprintf(fo, "%s\"", fs ? "" : ","); fs = false; ++emitted;
            for (int i = 0; i < smem[w].sample_len[k]; ++i) fprintf(fo, "%s%d", i ? "," : "", smem[w].sample[k][i]);
            fprintf(fo, "\"");
        }
        fprintf(fo, "]");
        if (bad >= 0) {
            violated = true;
            fprintf(fo, ",\"violation\":{\"msg\":\"%s\",\"choices\":\"", esc(why).c_str());
            for (int i = 0; i < smem[bad].trace_len; ++i) fprintf(fo, "%s%d", i ? "," : "", smem[bad].trace[i]);
            fprintf(fo, "\"}");
        }
        fprintf(fo, "}");
        fflush(fo);
        munmap(g_states, sizeof(shared_tab) + TAB * 8); munmap(g_outcomes, sizeof(shared_tab) + TAB * 8);
        if (violated) break;
    }
    fprintf(fo, "\n],\"wall_s\":%.2f}\n", now() - t0);
    if (fo != stdout) fclose(fo);
    return violated ? 1 : 0;
}
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return "detect_stack_use_after_return=0:quarantine_size_mb=16:detect_leaks=1:allocator_may_return_null=0:handle_abort=1:malloc_context_size=5"; }
extern "C" const char* __lsan_default_options() { return "print_suppressions=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0"; }
#endif
