// OpenMP run time under control of the harness: the schedule of the threads is an input.
//   team = 1: serial;  ordered: one thread at a time (a coroutine), in a given order, switching at barriers;  otherwise: real threads
#pragma once
#include <omp.h>
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <ucontext.h>
#include <vector>

namespace gomp {
static unsigned team = 1;
static bool ordered = true;
static uint64_t seed = 0;   ///< decides the order of the threads
static size_t regions = 0;  ///< regions executed by more than one thread
static thread_local unsigned tid = 0, size = 1;
static std::mutex mtx, critical;
static std::condition_variable cv;
static unsigned arrived = 0;
static uint64_t phase = 0;
static std::vector<unsigned> order;
static std::vector<ucontext_t> fiber;
static std::vector<std::vector<char>> stacks;
static thread_local unsigned rank = 0;  ///< position in the order
// work sharing (dynamic)
struct Work {
    long next, end, incr, chunk;
};
static std::mutex wmtx;
static std::vector<Work> work;
static thread_local size_t nwork = 0;

static bool coroutine = false;
static ucontext_t scheduler;
static void barrier()
{
    if (size == 1)
        return;
    if (coroutine) {
        unsigned t = tid, r = rank, n = size;
        size_t w = nwork;
        swapcontext(&fiber[r], &scheduler);
        tid = t, rank = r, size = n, nwork = w;
        return;
    }
    std::unique_lock<std::mutex> l(mtx);
    uint64_t p = phase;
    if (++arrived == size) {
        arrived = 0;
        phase++;
        cv.notify_all();
        return;
    }
    cv.wait(l, [&] { return phase != p; });
}
static void (*body)(void*);
static void* argument;
static std::vector<char> done;
static void entry()
{
    unsigned r = rank;
    body(argument);
    done[r] = 1;
    swapcontext(&fiber[r], &scheduler);
}
/// every thread in turn, up to the next barrier
static void coroutines(void (*fn)(void*), void* data, unsigned n)
{
    body = fn, argument = data;
    done.assign(n, 0);
    fiber.resize(n);
    stacks.resize(std::max<size_t>(stacks.size(), n));
    for (unsigned r = 0; r < n; ++r) {
        stacks[r].resize(1 << 18);
        getcontext(&fiber[r]);
        fiber[r].uc_stack.ss_sp = stacks[r].data();
        fiber[r].uc_stack.ss_size = stacks[r].size();
        fiber[r].uc_link = nullptr;
        makecontext(&fiber[r], entry, 0);
    }
    coroutine = true;
    for (bool any = true; any;) {
        any = false;
        for (unsigned r = 0; r < n; ++r)
            if (!done[r]) {
                // (restored by the thread itself, if it continues after a barrier)
                rank = r, tid = order[r], size = n, nwork = 0;
                swapcontext(&scheduler, &fiber[r]);
                any = any || !done[r];
            }
    }
    coroutine = false;
    tid = 0, size = 1, rank = 0, nwork = 0;
}
static void parallel(void (*fn)(void*), void* data, unsigned want)
{
    unsigned n = want ? want : team;
    if (size > 1 || n <= 1) {  // (nested: serial)
        unsigned t = tid, s = size, r = rank;
        size_t w = nwork;
        std::vector<Work> keep = work;
        tid = 0, size = 1, nwork = 0;
        if (s == 1)
            work.clear();
        fn(data);
        tid = t, size = s, rank = r, nwork = w;
        if (s == 1)
            work = keep;
        return;
    }
    regions++;
    work.clear();
    order.resize(n);
    for (unsigned i = 0; i < n; ++i)
        order[i] = i;
    uint64_t z = seed;
    for (unsigned i = n; i-- > 1;) {
        z = z * 6364136223846793005ull + 1442695040888963407ull;
        std::swap(order[i], order[(z >> 33) % (i + 1)]);
    }
    arrived = 0;
    if (ordered)
        return coroutines(fn, data, n);
    auto run = [&](unsigned r) {
        rank = r, tid = order[r], size = n, nwork = 0;
        fn(data);
        tid = 0, size = 1, nwork = 0;
    };
    std::vector<std::thread> T;
    for (unsigned r = 1; r < n; ++r)
        T.emplace_back(run, r);
    run(0);
    for (auto& t : T)
        t.join();
}
static bool next(long* a, long* b)
{
    std::lock_guard<std::mutex> l(wmtx);
    Work& w = work[nwork - 1];
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end)
        return false;
    *a = w.next;
    long e = w.next + w.incr * w.chunk;
    *b = w.incr > 0 ? std::min(e, w.end) : std::max(e, w.end);
    w.next = *b;
    return true;
}
static bool start(long a, long b, long incr, long chunk, long* i, long* j)
{
    {
        std::lock_guard<std::mutex> l(wmtx);
        if (++nwork > work.size())
            work.push_back({a, b, incr, chunk < 1 ? 1 : chunk});
    }
    return next(i, j);
}
struct Loop {
    void (*fn)(void*);
    void* data;
};
} // namespace gomp

extern "C" {
int omp_get_thread_num() noexcept { return (int)gomp::tid; }
int omp_get_num_threads() noexcept { return (int)gomp::size; }
int omp_get_max_threads() noexcept { return (int)gomp::team; }
int omp_in_parallel() noexcept { return gomp::size > 1; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { gomp::parallel(fn, data, n); }
void GOMP_barrier() { gomp::barrier(); }
void GOMP_critical_start() { gomp::critical.lock(); }
void GOMP_critical_end() { gomp::critical.unlock(); }
void GOMP_critical_name_start(void**) { gomp::critical.lock(); }
void GOMP_critical_name_end(void**) { gomp::critical.unlock(); }
void GOMP_atomic_start() { gomp::critical.lock(); }
void GOMP_atomic_end() { gomp::critical.unlock(); }
bool GOMP_single_start() { long i, j; return gomp::start(0, 1, 1, 1, &i, &j); }
#define GFV_LOOP(name) \
    bool GOMP_loop_##name##_start(long a, long b, long incr, long chunk, long* i, long* j) { return gomp::start(a, b, incr, chunk, i, j); } \
    bool GOMP_loop_##name##_next(long* i, long* j) { return gomp::next(i, j); }
GFV_LOOP(dynamic)
GFV_LOOP(guided)
GFV_LOOP(nonmonotonic_dynamic)
GFV_LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long a, long b, long incr, long* i, long* j) { return gomp::start(a, b, incr, 1, i, j); }
bool GOMP_loop_runtime_next(long* i, long* j) { return gomp::next(i, j); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long incr, long* i, long* j) { return gomp::start(a, b, incr, 1, i, j); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* i, long* j) { return gomp::next(i, j); }
#define GFV_ULL(name) \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long incr, unsigned long long chunk, unsigned long long* i, unsigned long long* j) \
    { \
        return gomp::start((long)a, (long)b, (long)incr, (long)chunk, (long*)i, (long*)j); \
    } \
    bool GOMP_loop_ull_##name##_next(unsigned long long* i, unsigned long long* j) { return gomp::next((long*)i, (long*)j); }
GFV_ULL(dynamic)
GFV_ULL(guided)
GFV_ULL(nonmonotonic_dynamic)
GFV_ULL(nonmonotonic_guided)
void GOMP_loop_end() { gomp::barrier(); }
void GOMP_loop_end_nowait() {}
}
// combined constructs: the loop is set up by the first thread that asks for a part of it
namespace gomp {
struct Combined {
    void (*fn)(void*);
    void* data;
    long a, b, incr, chunk;
};
static void enter(void* p)
{
    Combined& c = *(Combined*)p;
    {
        std::lock_guard<std::mutex> l(wmtx);
        if (++nwork > work.size())
            work.push_back({c.a, c.b, c.incr, c.chunk < 1 ? 1 : c.chunk});
    }
    c.fn(c.data);
}
} // namespace gomp
extern "C" {
#define GFV_COMBINED(name) \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long a, long b, long incr, long chunk, unsigned) \
    { \
        gomp::Combined c{fn, data, a, b, incr, chunk}; \
        gomp::parallel(gomp::enter, &c, n); \
    }
GFV_COMBINED(dynamic)
GFV_COMBINED(guided)
GFV_COMBINED(nonmonotonic_dynamic)
GFV_COMBINED(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n, long a, long b, long incr, unsigned)
{
    gomp::Combined c{fn, data, a, b, incr, 1};
    gomp::parallel(gomp::enter, &c, n);
}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long a, long b, long incr, unsigned f)
{
    GOMP_parallel_loop_runtime(fn, data, n, a, b, incr, f);
}
}
