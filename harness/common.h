// Shared parts of the harnesses: random numbers, the log in shared memory and
// the loop that runs each scenario so that a crash or a hang becomes an event
// in the log instead of ending the run.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int num, int den) { return below(den) < num; }
    template <class T> T &pick(std::vector<T> &v) { return v[below(int(v.size()))]; }
    template <class T> void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(int(i))]);
    }
};
inline uint64_t mix(uint64_t a, uint64_t b) { return Rng(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull)).next(); }

struct Shared {
    volatile int scenario;
    volatile size_t start;  // of this scenario in the log
    volatile size_t len;
    char buf[1];
};
static const size_t LOG_CAP = 64u << 20;
static const size_t SCN_CAP = 16u << 20;
static Shared* sh = nullptr;
static FILE* out_file = nullptr;

static thread_local bool mute = false;
// The simulation that this thread is at, if there are several, and where its events go if not to the log
static thread_local int world = 0;
static thread_local std::string* sink = nullptr;
inline void put(char const* text, size_t n) {
    if (sh->len + n + 1 > sh->start + SCN_CAP) {
        // Endless output is a hang
        raise(SIGVTALRM);
    }
    memcpy(sh->buf + sh->len, text, n);
    sh->len = sh->len + n;
}
inline void emit(char const* text, size_t n) {
    if (mute) return;
    if (!world) return put(text, n);
    std::string s(text, n);
    if (s.compare(0, 12, "{\"e\":\"Reset\"") == 0) s.replace(6, 5, "World");
    s.insert(s.size() - 2, ",\"u\":" + std::to_string(world));
    if (sink) *sink += s;
    else put(s.data(), s.size());
}
inline void emit(std::string const &s) { emit(s.data(), s.size()); }
inline std::string fmt(char const* f, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (n < int(sizeof b)) return b;
    std::string s(n + 1, 0);
    va_start(ap, f);
    vsnprintf(&s[0], n + 1, f, ap);
    va_end(ap);
    s.pop_back();
    return s;
}

// Several simulations in one process.  body(u) runs simulation u and calls hook() now and then, in particular
// while the simulator, a solver, ... is at work.
//   NESTED       while the first is at work, others are made, run and deleted
//   INTERLEAVED  they take turns
//   CONCURRENT   each has a thread
enum Mode { NESTED, INTERLEAVED, CONCURRENT };
static thread_local std::function<void()> hook_fn;
inline void hook() {
    if (hook_fn) hook_fn();
}
inline void run_worlds(Mode mode, int n, uint64_t seed, std::function<void(int)> body) {
    if (getenv("VERIF_ALONE")) {
        int u = atoi(getenv("VERIF_ALONE"));
        if (u > n) return;
        world = u;
        body(u);
        world = 0;
        return;
    }
    if (mode == NESTED) {
        int next = 1;
        Rng r(seed);
        bool busy = false;
        int rate = r.chance(1, 2) ? 10 : 60;
        hook_fn = [&]() {
            if (busy || next >= n || !r.chance(1, rate)) return;
            busy = true;
            int was = world;
            world = ++next;
            body(world);
            world = was;
            busy = false;
        };
        world = 1;
        body(1);
        hook_fn = nullptr;
        world = 0;
        return;
    }
    std::mutex m;
    std::condition_variable cv;
    int turn = 1;
    std::vector<bool> alive(n + 1, true);
    std::vector<std::string> logs(n + 1);
    alive[0] = false;
    Rng r(seed);
    int rate = r.chance(1, 2) ? 2 : 8;
    auto pass = [&]() {
        std::vector<int> c;
        for (int i = 1; i <= n; i++) if (alive[i]) c.push_back(i);
        if (!c.empty()) turn = r.pick(c);
        cv.notify_all();
    };
    std::vector<std::thread> ts;
    for (int u = 1; u <= n; u++) ts.emplace_back([&, u]() {
        world = u;
        if (mode == CONCURRENT) {
            sink = &logs[u];
            body(u);
            return;
        }
        auto mine = [&]() {
            std::unique_lock<std::mutex> l(m);
            // Nobody holds a lock for long
            if (!cv.wait_for(l, std::chrono::seconds(120), [&]() { return turn == u; })) raise(SIGVTALRM);
        };
        mine();
        hook_fn = [&]() {
            {
                std::unique_lock<std::mutex> l(m);
                if (!r.chance(1, rate)) return;
                pass();
            }
            mine();
        };
        body(u);
        hook_fn = nullptr;
        std::unique_lock<std::mutex> l(m);
        alive[u] = false;
        pass();
    });
    for (auto &t : ts) t.join();
    for (auto &s : logs) put(s.data(), s.size());
}
inline Mode mode_of(int n) {
#ifdef __SANITIZE_THREAD__
    return CONCURRENT;
#else
    return n % 5 < 2 ? NESTED : n % 5 < 4 ? INTERLEAVED : CONCURRENT;
#endif
}
// A scenario of several simulations
inline void worlds_scenario(uint64_t seed, int n, std::function<void(int, uint64_t)> body) {
    emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
    Rng r(mix(mix(seed, n), 31));
    int k = r.range(2, 4);
    run_worlds(mode_of(n), k, r.next(), [&](int u) { body(u, mix(mix(seed, n), u)); });
}
inline void flush_log() {
    fwrite(sh->buf, 1, sh->len, out_file);
    fflush(out_file);
    sh->len = 0;
}
// The scenario that is being run
static int scenario_number = 0;
// With VERIF_HEAP=1 each scenario is run twice (so that what is made only once exists), and a Heap event tells how
// many bytes of memory the second run has not released.
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
inline long allocated() { return long(__sanitizer_get_current_allocated_bytes()); }
#else
inline long allocated() { return 0; }
#endif
// Run scenarios first..last-1.  Each scenario begins with a Reset event.
inline int run_scenarios(char const* path, int first, int last, std::function<void(int)> body,
                         int cpu_seconds = 5) {
    out_file = fopen(path, "w");
    if (!out_file) { perror(path); return 2; }
    sh = (Shared*)mmap(nullptr, LOG_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->scenario = first;
    sh->len = sh->start = 0;
    int bad = 0;
    bool heap = getenv("VERIF_HEAP") != nullptr;
    while (sh->scenario < last) {
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0) {
            if (!getenv("VERIF_DEBUG") && !freopen("/dev/null", "w", stderr)) _exit(3);
            while (sh->scenario < last) {
                struct itimerval tv = {{0, 0}, {cpu_seconds, 0}};
                setitimer(ITIMER_VIRTUAL, &tv, nullptr);
                sh->start = sh->len;
                scenario_number = sh->scenario;
                body(sh->scenario);
                if (heap) {
                    sh->len = sh->start;
                    mute = false;
                    long before = allocated();
                    body(sh->scenario);
                    long after = allocated();
                    mute = false;
                    emit(fmt("{\"e\":\"Heap\",\"d\":%ld}\n", after - before));
                }
                struct itimerval off = {{0, 0}, {0, 0}};
                setitimer(ITIMER_VIRTUAL, &off, nullptr);
                if (sh->len > (4u << 20)) flush_log();
                sh->scenario = sh->scenario + 1;
            }
            flush_log();
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        // The beginning of an endless output is enough
        if (sh->len > sh->start + SCN_CAP / 2) sh->len = sh->start + (256u << 10);
        // Keep complete lines only
        while (sh->len > 0 && sh->buf[sh->len - 1] != '\n') sh->len = sh->len - 1;
        sh->start = sh->len;
        bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM;
        if (hang)
            emit(fmt("{\"e\":\"Hang\",\"n\":%d}\n", sh->scenario));
        else
            emit(fmt("{\"e\":\"Crash\",\"n\":%d,\"s\":%d}\n", sh->scenario,
                     WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)));
        flush_log();
        sh->start = 0;
        sh->scenario = sh->scenario + 1;
        // Enough has been seen if everything fails
        if ((bad += hang ? 3 : 1) >= 25) break;
    }
    fclose(out_file);
    return 0;
}
#endif
