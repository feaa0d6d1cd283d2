// Shared by all drivers: deterministic RNG, ndjson trace writer, quantisation.
// Drivers call htool's public API and log arguments and results; expectations live in the TLA+ specs.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace vf {
typedef std::complex<double> cd;
const int BAD = 99999999;
// what counts as an integer, and the tolerance of operations that truncate nothing
const double SNAP = sizeof(double) == 4 ? 3e-2 : 1e-6, EXACT = sizeof(double) == 4 ? 1e-5 : 1e-10;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int range(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); } // inclusive
    bool chance(int percent) { return range(0, 99) < percent; }
    int some(int a, int b) { return chance(7) ? range(b + 1, 4 * b + 14) : range(a, b); } // mostly a..b, now and then much more
    template <typename T>
    const T &pick(const std::vector<T> &v) { return v[size_t(range(0, int(v.size()) - 1))]; }
};

inline int q(double x, double tol = SNAP) {
    if (!std::isfinite(x) || std::fabs(x) > 5e7)
        return BAD;
    double r = std::floor(x + 0.5);
    if (std::fabs(x - r) > tol)
        return BAD;
    return int(r);
}
// rounded scaled value (no integrality requirement)
inline int qs(double x, double scale) {
    double v = x * scale;
    if (!std::isfinite(v) || std::fabs(v) > 5e7)
        return BAD;
    return int(std::floor(v + 0.5));
}
inline double re(double x) { return x; }
inline double re(cd x) { return x.real(); }
inline double im(double) { return 0; }
inline double im(cd x) { return x.imag(); }
template <typename T>
struct is_c { static const bool value = false; };
template <>
struct is_c<cd> { static const bool value = true; };

class Ev {
    std::ostringstream o;
    bool first = true;
    void key(const char *k) {
        o << (first ? "{" : ",") << "\"" << k << "\":";
        first = false;
    }

  public:
    explicit Ev(const std::string &op) { s("op", op); }
    Ev &i(const char *k, long v) {
        key(k);
        o << v;
        return *this;
    }
    Ev &b(const char *k, bool v) {
        key(k);
        o << (v ? "true" : "false");
        return *this;
    }
    Ev &s(const char *k, const std::string &v) {
        key(k);
        o << '"';
        for (char c : v) {
            if (c == '"' || c == '\\')
                o << '\\' << c;
            else if ((unsigned char)c < 0x20)
                o << ' ';
            else
                o << c;
        }
        o << '"';
        return *this;
    }
    Ev &c(const char *k, char v) { return s(k, std::string(1, v)); }
    template <typename V>
    Ev &seq(const char *k, const V &v) {
        key(k);
        o << '[';
        for (size_t p = 0; p < v.size(); p++)
            o << (p ? "," : "") << long(v[p]);
        o << ']';
        return *this;
    }
    Ev &raw(const char *k, const std::string &v) {
        key(k);
        o << v;
        return *this;
    }
    template <typename T>
    Ev &scal(const char *k, T v) {
        key(k);
        o << '[' << q(re(v)) << ',' << q(im(v)) << ']';
        return *this;
    }
    // column-major m x n matrix
    template <typename T>
    Ev &mat(const char *k, const T *p, int m, int n, double tol = SNAP) {
        key(k);
        o << "{\"m\":" << m << ",\"n\":" << n << ",\"d\":[";
        for (long a = 0; a < long(m) * n; a++)
            o << (a ? "," : "") << q(re(p[a]), tol);
        o << "],\"e\":[";
        if (is_c<T>::value)
            for (long a = 0; a < long(m) * n; a++)
                o << (a ? "," : "") << q(im(p[a]), tol);
        o << "]}";
        return *this;
    }
    template <typename T>
    Ev &mat(const char *k, const std::vector<T> &v, int m, int n, double tol = SNAP) {
        return mat(k, v.data(), m, n, tol);
    }
    std::string str() const { return o.str() + "}"; }
};

// Several shards, a case goes to one of them.
// the reference implementation prints a message and stops the program with exit code 0
extern "C" void xerbla_(const char *name, const int *info, int len) {
    std::fprintf(stderr, "illegal argument %d of %.*s\n", *info, len, name);
    std::abort();
}
class Trace {
    std::vector<std::unique_ptr<std::ofstream>> f;
    std::vector<long> weight;
    size_t cur = 0;

  public:
    long n_events = 0;
    Trace(const std::string &prefix, int shards) {
        for (int k = 0; k < shards; k++)
            f.emplace_back(new std::ofstream(prefix + "." + std::to_string(k) + ".ndjson"));
        weight.assign(size_t(shards), 0);
    }
    // tells the runner that the driver got to its end (an illegal BLAS argument ends a program quietly)
    ~Trace() {
        if (!std::uncaught_exception())
            std::printf("DRIVER-DONE\n");
    }
    // start a case in the least loaded shard
    void begin_case() {
        cur = size_t(std::min_element(weight.begin(), weight.end()) - weight.begin());
    }
    void put(const Ev &e) {
        std::string s = e.str();
        (*f[cur]) << s << "\n";
        weight[cur] += long(s.size()) + 200;
        f[cur]->flush();
        n_events++;
    }
    void add_weight(long w) { weight[cur] += w; }
};

template <typename T>
T mk(int a, int b);
template <>
inline double mk<double>(int a, int) { return a; }
template <>
inline cd mk<cd>(int a, int b) { return cd(a, b); }

template <typename T>
T rnd(Rng &r, int lo, int hi) {
    int a = r.range(lo, hi), b = r.range(lo, hi);
    return mk<T>(a, b);
}
template <typename T>
std::vector<T> rvec(Rng &r, int n, int lo = -3, int hi = 3) {
    std::vector<T> v(n);
    for (auto &x : v)
        x = rnd<T>(r, lo, hi);
    return v;
}
// scalars: 0, 1, -1, small, complex
template <typename T>
T rscal(Rng &r) {
    int k = r.range(0, 5);
    if (k == 0) return mk<T>(0, 0);
    if (k == 1) return mk<T>(1, 0);
    if (k == 2) return mk<T>(-1, 0);
    if (k == 3) return mk<T>(2, 0);
    return mk<T>(r.range(-2, 3), r.range(-2, 2));
}

// Integer point clouds
inline std::vector<double> points(Rng &r, int n, int dim, int kind, int span = 20) {
    std::vector<double> x(size_t(n) * dim);
    for (int i = 0; i < n; i++)
        for (int d = 0; d < dim; d++) {
            double v = 0;
            switch (kind) {
            case 0: v = r.range(-span, span); break;               // scattered
            case 1: v = d == 0 ? i % (2 * span) - span : r.range(-1, 1); break; // elongated
            case 2: v = d == 0 ? (i % 7) - 3 : -(i % 7); break;    // collinear with duplicates
            case 3: v = -r.range(1, span); break;                  // all negative
            case 4: v = (i % 2 ? span - r.range(0, 2) : -span + r.range(0, 2)); break; // two clusters
            case 5: v = r.range(0, 2); break;                      // many duplicates
            case 6: v = std::floor(span * (d == 0 ? std::cos(6.2831853 * i / n) : (d == 1 ? std::sin(6.2831853 * i / n) : 0.3 * std::cos(31.0 * i)))); break; // circle
            default: v = d == 0 ? r.range(-span, span) : (d == 1 ? r.range(-2, 2) : 0); break; // flat
            }
            x[size_t(i) * dim + d] = v;
        }
    return x;
}

inline std::string arg(int argc, char **argv, const std::string &name, const std::string &def) {
    for (int i = 1; i + 1 < argc; i++)
        if (name == argv[i])
            return argv[i + 1];
    return def;
}
inline long argi(int argc, char **argv, const std::string &name, long def) {
    return std::stol(arg(argc, argv, name, std::to_string(def)));
}
} // namespace vf
#endif
