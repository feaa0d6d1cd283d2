// Stand-in for the OpenMP runtime: threads are std::threads whose interleaving the harness decides.
//  controlled: one thread runs at a time; at every synchronisation call, BLAS read-modify-write and user callback
//              the next thread is taken from a given schedule (a behaviour of MCOmp), then at random.
//  free:       threads run concurrently (used with a race detector: all synchronisation is visible to it).
#ifndef VERIF_GOMP_SHIM_HPP
#define VERIF_GOMP_SHIM_HPP
#include <algorithm>
#include <complex>
#include <condition_variable>
#include <cstdint>
#include <memory>
#include <cstring>
#include <map>
#include <mutex>
#include <thread>
#include <vector>

namespace shim {
struct Loop {
    long next, end, incr, chunk;
    int kind; // 0 static/dynamic, 1 guided
};
struct Team {
    int n;
    std::mutex m;
    std::condition_variable cv;
    std::map<int, Loop> loops;
    std::map<int, bool> singles;
    int bar_count = 0, bar_gen = 0;
    // controlled scheduling
    int cur = 0;
    std::vector<int> state; // 0 runnable, 1 waits for a lock, 2 at a barrier, 3 finished
    std::vector<void *> waits;
};
inline bool &controlled() { static bool c = false; return c; }
inline int &threads() { static int n = 1; return n; }
// the runtime may give a team fewer threads than asked for
inline int &limit() { static int n = 1 << 20; return n; }
inline std::vector<int> &schedule() { static std::vector<int> s; return s; }
inline size_t &pos() { static size_t p = 0; return p; }
inline unsigned long &seed() { static unsigned long s = 1; return s; }
inline long &switches() { static long s = 0; return s; }
struct Lock {
    bool held = false;
};
inline std::map<void *, Lock> &held() { static std::map<void *, Lock> h; return h; }
inline std::mutex &locks_m() { static std::mutex m; return m; }
inline std::map<void *, std::unique_ptr<std::mutex>> &mutexes() { static std::map<void *, std::unique_ptr<std::mutex>> m; return m; }
inline std::mutex &mutex_of(void *k) {
    std::lock_guard<std::mutex> lk(locks_m());
    auto &p = mutexes()[k];
    if (!p) p.reset(new std::mutex);
    return *p;
}
struct Self {
    Team *team = nullptr;
    int id = 0, loop = 0, single = 0;
};
inline Self &self() { static thread_local Self s; return s; }

// team mutex held
inline void pick(Team &t) {
    switches()++;
    while (pos() < schedule().size()) {
        int k = schedule()[pos()++];
        if (k >= 0 && k < t.n && t.state[k] == 0) {
            t.cur = k;
            return;
        }
    }
    std::vector<int> r;
    for (int k = 0; k < t.n; k++)
        if (t.state[k] == 0) r.push_back(k);
    if (r.empty()) {
        t.cur = -1;
        return;
    }
    seed() = seed() * 6364136223846793005ul + 1442695040888963407ul;
    t.cur  = r[(seed() >> 33) % r.size()];
}
inline void wait_turn(Team &t, std::unique_lock<std::mutex> &lk, int id) {
    t.cv.notify_all();
    t.cv.wait(lk, [&] { return t.cur == id; });
}
// a place where another thread may go on
inline void point() {
    Self &s = self();
    if (!s.team || !controlled()) return;
    std::unique_lock<std::mutex> lk(s.team->m);
    pick(*s.team);
    wait_turn(*s.team, lk, s.id);
}
inline void lock(void *k) {
    Self &s = self();
    if (!s.team || !controlled()) {
        mutex_of(k).lock();
        return;
    }
    std::unique_lock<std::mutex> lk(s.team->m);
    Team &t = *s.team;
    pick(t);
    wait_turn(t, lk, s.id);
    while (held()[k].held) {
        t.state[s.id] = 1;
        t.waits[s.id] = k;
        pick(t);
        wait_turn(t, lk, s.id);
    }
    held()[k].held = true;
}
inline void unlock(void *k) {
    Self &s = self();
    if (!s.team || !controlled()) {
        mutex_of(k).unlock();
        return;
    }
    std::unique_lock<std::mutex> lk(s.team->m);
    Team &t        = *s.team;
    held()[k].held = false;
    for (int j = 0; j < t.n; j++)
        if (t.state[j] == 1 && t.waits[j] == k) t.state[j] = 0;
    pick(t);
    wait_turn(t, lk, s.id);
}
inline void barrier() {
    Self &s = self();
    if (!s.team || s.team->n == 1) return;
    Team &t = *s.team;
    std::unique_lock<std::mutex> lk(t.m);
    int gen = t.bar_gen;
    if (++t.bar_count == t.n) {
        t.bar_count = 0;
        t.bar_gen++;
        if (controlled()) {
            for (int k = 0; k < t.n; k++)
                if (t.state[k] == 2) t.state[k] = 0;
            pick(t);
            wait_turn(t, lk, s.id);
        } else
            t.cv.notify_all();
        return;
    }
    if (controlled()) {
        t.state[s.id] = 2;
        pick(t);
        wait_turn(t, lk, s.id);
    } else
        t.cv.wait(lk, [&] { return t.bar_gen != gen; });
}
inline void parallel(void (*fn)(void *), void *data, unsigned nt, const Loop *init) {
    Self saved = self();
    int n      = saved.team ? 1 : std::min(limit(), nt ? int(nt) : threads());
    Team t;
    t.n = n;
    t.state.assign(n, 0);
    t.waits.assign(n, nullptr);
    if (init) t.loops[1] = *init;
    auto body = [&](int id) {
        Self &s = self();
        s       = Self();
        s.team  = saved.team ? saved.team : &t;
        if (saved.team) { // nested: one thread
            s.team = nullptr;
        }
        s.id = id;
        if (init) s.loop = 1;
        if (!s.team) {
            Team one;
            one.n = 1;
            one.state.assign(1, 0);
            one.waits.assign(1, nullptr);
            if (init) one.loops[1] = *init;
            s.team = &one;
            fn(data);
            return;
        }
        if (controlled()) {
            std::unique_lock<std::mutex> lk(t.m);
            t.cv.wait(lk, [&] { return t.cur == id; });
        }
        fn(data);
        if (controlled()) {
            std::unique_lock<std::mutex> lk(t.m);
            t.state[id] = 3;
            pick(t);
            t.cv.notify_all();
        }
    };
    if (controlled() && n > 1) {
        std::lock_guard<std::mutex> lk(t.m);
        pick(t);
    }
    std::vector<std::thread> th;
    for (int k = 1; k < n; k++) th.emplace_back(body, k);
    body(0);
    for (auto &x : th) x.join();
    self() = saved;
}
inline bool take(Loop &l, int n, long *a, long *b) {
    long left = l.incr > 0 ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end - l.incr - 1) / -l.incr;
    if (left <= 0) return false;
    long c = l.chunk > 0 ? l.chunk : 1;
    if (l.kind == 1) c = std::max(c, (left + n - 1) / n);
    c  = std::min(c, left);
    *a = l.next;
    *b = l.next + c * l.incr;
    l.next = *b;
    return true;
}
inline bool next(long *a, long *b) {
    point();
    Self &s = self();
    if (!s.team) return false;
    std::lock_guard<std::mutex> lk(s.team->m);
    return take(s.team->loops[s.loop], s.team->n, a, b);
}
inline bool start(long first, long end, long incr, long chunk, int kind, long *a, long *b) {
    Self &s = self();
    if (!s.team) { // worksharing outside a parallel region: everything
        *a = first;
        *b = end;
        return incr > 0 ? first < end : first > end;
    }
    {
        std::lock_guard<std::mutex> lk(s.team->m);
        s.loop++;
        if (!s.team->loops.count(s.loop)) s.team->loops[s.loop] = Loop{first, end, incr, chunk, kind};
    }
    return next(a, b);
}
static int default_key, atomic_key;
} // namespace shim

extern "C" {
int omp_get_thread_num() noexcept { return shim::self().team ? shim::self().id : 0; }
int omp_get_num_threads() noexcept { return shim::self().team ? shim::self().team->n : 1; }
int omp_get_max_threads() noexcept { return shim::threads(); }
void omp_set_num_threads(int n) noexcept { shim::threads() = n < 1 ? 1 : n; }
int omp_get_num_procs() noexcept { return 8; }
int omp_in_parallel() noexcept { return shim::self().team && shim::self().team->n > 1; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { shim::parallel(fn, data, n, nullptr); }
void GOMP_barrier() { shim::barrier(); }
void GOMP_critical_start() { shim::lock(&shim::default_key); }
void GOMP_critical_end() { shim::unlock(&shim::default_key); }
void GOMP_critical_name_start(void **p) { shim::lock(p); }
void GOMP_critical_name_end(void **p) { shim::unlock(p); }
void GOMP_atomic_start() { shim::lock(&shim::atomic_key); }
void GOMP_atomic_end() { shim::unlock(&shim::atomic_key); }
void GOMP_loop_end() { shim::barrier(); }
void GOMP_loop_end_nowait() { shim::point(); }
bool GOMP_single_start() {
    shim::Self &s = shim::self();
    if (!s.team) return true;
    std::lock_guard<std::mutex> lk(s.team->m);
    bool &d = s.team->singles[++s.single];
    bool r  = !d;
    d       = true;
    return r;
}
#define SHIM_LOOP(NAME, KIND)                                                                                                                                    \
    bool GOMP_loop_##NAME##_start(long f, long e, long i, long c, long *a, long *b) { return shim::start(f, e, i, c, KIND, a, b); }                              \
    bool GOMP_loop_##NAME##_next(long *a, long *b) { return shim::next(a, b); }                                                                                  \
    bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long f, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return shim::start(long(f), long(e), long(i), long(c), KIND, (long *)a, (long *)b); } \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long *a, unsigned long long *b) { return shim::next((long *)a, (long *)b); }
SHIM_LOOP(dynamic, 0)
SHIM_LOOP(guided, 1)
SHIM_LOOP(nonmonotonic_dynamic, 0)
SHIM_LOOP(nonmonotonic_guided, 1)
#define SHIM_PAR(NAME, KIND)                                                                                          \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long f, long e, long i, long c, unsigned) { \
        shim::Loop l{f, e, i, c, KIND};                                                                               \
        shim::parallel(fn, data, n, &l);                                                                              \
    }
SHIM_PAR(dynamic, 0)
SHIM_PAR(guided, 1)
SHIM_PAR(nonmonotonic_dynamic, 0)
SHIM_PAR(nonmonotonic_guided, 1)
#define SHIM_PAR_RT(NAME)                                                                                      \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long f, long e, long i, unsigned) { \
        shim::Loop l{f, e, i, 1, 0};                                                                           \
        shim::parallel(fn, data, n, &l);                                                                       \
    }                                                                                                          \
    bool GOMP_loop_##NAME##_start(long f, long e, long i, long *a, long *b) { return shim::start(f, e, i, 1, 0, a, b); } \
    bool GOMP_loop_##NAME##_next(long *a, long *b) { return shim::next(a, b); }
SHIM_PAR_RT(runtime)
SHIM_PAR_RT(nonmonotonic_runtime)
SHIM_PAR_RT(maybe_nonmonotonic_runtime)
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if (cpy) {
        std::vector<char> buf(size_t(size + align));
        char *p = buf.data() + (align - (uintptr_t)buf.data() % align) % align;
        cpy(p, data);
        fn(p);
    } else
        fn(data);
    shim::point();
}
// sections: numbers 1..count handed out like the iterations of a loop
unsigned GOMP_sections_start(unsigned count) {
    long a, b;
    return shim::start(1, long(count) + 1, 1, 1, 0, &a, &b) ? unsigned(a) : 0;
}
unsigned GOMP_sections_next() {
    long a, b;
    return shim::next(&a, &b) ? unsigned(a) : 0;
}
void GOMP_sections_end() { shim::barrier(); }
void GOMP_sections_end_nowait() { shim::point(); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) {
    shim::Loop l{1, long(count) + 1, 1, 1, 0};
    shim::parallel(fn, data, n, &l);
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, long first, long end, long step) {
    for (long i = first; step > 0 ? i < end : i > end; i += step) {
        std::vector<char> buf(size_t(size + align));
        char *p = buf.data() + (align - (uintptr_t)buf.data() % align) % align;
        if (cpy) cpy(p, data);
        else std::memcpy(p, data, size_t(size));
        ((long *)p)[0] = i;
        ((long *)p)[1] = i + step;
        fn(p);
        shim::point();
    }
}
void GOMP_taskwait() {}
void GOMP_taskyield() { shim::point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
}

// BLAS kernels the parallel regions use, with a switch between reading and writing the result
namespace shim {
template <typename T>
T cjg(T x) { return x; }
template <typename R>
std::complex<R> cjg(std::complex<R> x) { return std::conj(x); }
template <typename T>
void axpy(int n, T a, const T *x, int incx, T *y, int incy) {
    std::vector<T> v(n > 0 ? n : 0);
    for (int i = 0; i < n; i++) v[i] = y[long(i) * incy];
    point();
    for (int i = 0; i < n; i++) y[long(i) * incy] = v[i] + a * x[long(i) * incx];
}
template <typename T>
void gemm(char ta, char tb, int m, int n, int k, T al, const T *A, int lda, const T *B, int ldb, T be, T *C, int ldc) {
    auto at = [&](int i, int l) { return ta == 'N' ? A[long(l) * lda + i] : ta == 'T' ? A[long(i) * lda + l] : cjg(A[long(i) * lda + l]); };
    auto bt = [&](int l, int j) { return tb == 'N' ? B[long(j) * ldb + l] : tb == 'T' ? B[long(l) * ldb + j] : cjg(B[long(l) * ldb + j]); };
    std::vector<T> v;
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) v.push_back(be == T(0) ? T(0) : be * C[long(j) * ldc + i]);
    if (m > 0 && n > 0) point();
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) {
            T s = 0;
            for (int l = 0; l < k; l++) s += at(i, l) * bt(l, j);
            C[long(j) * ldc + i] = v[size_t(j) * m + i] + al * s;
        }
}
template <typename T>
void gemv(char t, int m, int n, T al, const T *A, int lda, const T *x, int incx, T be, T *y, int incy) {
    int p = t == 'N' ? m : n, q = t == 'N' ? n : m;
    std::vector<T> v;
    for (int i = 0; i < p; i++) v.push_back(be == T(0) ? T(0) : be * y[long(i) * incy]);
    if (p > 0) point();
    for (int i = 0; i < p; i++) {
        T s = 0;
        for (int j = 0; j < q; j++) s += (t == 'N' ? A[long(j) * lda + i] : t == 'T' ? A[long(i) * lda + j] : cjg(A[long(i) * lda + j])) * x[long(j) * incx];
        y[long(i) * incy] = v[i] + al * s;
    }
}
typedef std::complex<double> cplx;
} // namespace shim
extern "C" {
void daxpy_(const int *n, const double *a, const double *x, const int *ix, double *y, const int *iy) { shim::axpy<double>(*n, *a, x, *ix, y, *iy); }
void zaxpy_(const int *n, const shim::cplx *a, const shim::cplx *x, const int *ix, shim::cplx *y, const int *iy) { shim::axpy<shim::cplx>(*n, *a, x, *ix, y, *iy); }
void dgemv_(const char *t, const int *m, const int *n, const double *al, const double *A, const int *lda, const double *x, const int *ix, const double *be, double *y, const int *iy) { shim::gemv<double>(*t, *m, *n, *al, A, *lda, x, *ix, *be, y, *iy); }
void zgemv_(const char *t, const int *m, const int *n, const shim::cplx *al, const shim::cplx *A, const int *lda, const shim::cplx *x, const int *ix, const shim::cplx *be, shim::cplx *y, const int *iy) { shim::gemv<shim::cplx>(*t, *m, *n, *al, A, *lda, x, *ix, *be, y, *iy); }
void dgemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const double *al, const double *A, const int *lda, const double *B, const int *ldb, const double *be, double *C, const int *ldc) { shim::gemm<double>(*ta, *tb, *m, *n, *k, *al, A, *lda, B, *ldb, *be, C, *ldc); }
void zgemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const shim::cplx *al, const shim::cplx *A, const int *lda, const shim::cplx *B, const int *ldb, const shim::cplx *be, shim::cplx *C, const int *ldc) { shim::gemm<shim::cplx>(*ta, *tb, *m, *n, *k, *al, A, *lda, B, *ldb, *be, C, *ldc); }
}
#endif
