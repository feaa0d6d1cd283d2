// Compression and assembly of smooth kernels: error ratios, ranks and shapes (L01, H01, L02).
#include "agen.hpp"
#include <htool/hmatrix/linalg/factorization.hpp>
#include <htool/hmatrix/lrmat/SVD.hpp>
#include <htool/hmatrix/lrmat/fullACA.hpp>
#include <htool/hmatrix/lrmat/partialACA.hpp>
#include <htool/hmatrix/lrmat/sympartialACA.hpp>
#include <htool/hmatrix/lrmat/utils/recompression.hpp>
using namespace vf;
using namespace htool;

inline double ru(Rng &r) { return double(r.next() >> 11) * (1. / 9007199254740992.); }
// upwards rounded thousandths, capped
inline int up(double x) {
    if (!(x >= 0)) return BAD;
    return x > 5e7 ? 50000000 : int(std::ceil(x - 1e-9));
}
// kernels of two points, in user numbering
template <typename T>
struct Kern : VirtualGenerator<T>, VirtualInternalGenerator<T> {
    std::vector<double> x, y; // 3 coordinates per point
    int kind = 0;
    double wave = 0, shift = 0;
    int unit = 0; // the coefficients are multiplied by 2^unit: the relative contracts do not depend on it
    std::vector<T> P, Q; // kind 4: P(i,l) Q(j,l)
    int k = 0;
    char sym = 'S';
    const std::vector<int> *pt = nullptr, *ps = nullptr;
    double dominant = 0;      // added to the diagonal
    std::vector<double> skew; // factors of the rows
    T at(int i, int j) const {
        T v = value(i, j) * std::ldexp(1., unit);
        if (skew.size()) v *= skew[size_t(i)];
        return i == j ? v + T(dominant) : v;
    }
    T value(int i, int j) const {
        if (kind == 4) {
            T v = T(0);
            for (int l = 0; l < k; l++) v += P[size_t(i) * k + l] * Q[size_t(j) * k + l];
            return v;
        }
        if (kind == 5) return T(0);
        double d2 = 0;
        for (int c = 0; c < 3; c++) d2 += (x[3 * i + c] - y[3 * j + c]) * (x[3 * i + c] - y[3 * j + c]);
        double d = std::sqrt(d2), v = 0, ph = 0;
        switch (kind) {
        case 0: v = 1 / (shift + d); break;
        case 1: v = std::exp(-d2 / 50); break;
        case 2: v = std::log(2 + shift + d); break;
        default: v = std::exp(-d / 4); break;
        }
        // Hermitian in the exchange of the points, or symmetric
        if (sym == 'H')
            for (int c = 0; c < 3; c++) ph += wave * (x[3 * i + c] - y[3 * j + c]);
        else
            ph = wave * d;
        return phase(v, ph, T(0));
    }
    static double phase(double v, double, double) { return v; }
    static cd phase(double v, double ph, cd) { return cd(v * std::cos(ph), v * std::sin(ph)); }
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *p) const override {
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) p[size_t(j) * M + i] = at(rows[i], cols[j]);
    }
    void copy_submatrix(int M, int N, int r0, int c0, T *p) const override {
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) p[size_t(j) * M + i] = at((*pt)[r0 + i], (*ps)[c0 + j]);
    }
};
inline Cl cloud_tree(Rng &r, std::vector<double> &x, int mcs, int parts = 1) {
    int n = int(x.size() / 3);
    ClusterTreeBuilder<double> b;
    b.set_minclustersize(mcs);
    if (r.chance(50)) b.set_splitting_strategy(std::make_shared<RegularSplitting<double>>());
    std::vector<int> part{0, n};
    if (parts == 1) return b.create_cluster_tree(n, 3, x.data(), 2, 1, part.data());
    return b.create_cluster_tree(n, 3, x.data(), 2, parts);
}
inline std::vector<double> cloud(Rng &r, int n, int shape, double lx, double ox) {
    std::vector<double> x(size_t(n) * 3);
    for (int i = 0; i < n; i++) {
        double a = ru(r), b = ru(r), c = ru(r);
        switch (shape) {
        case 0: break;                                              // cube
        case 1: b *= 0.01, c *= 0.01; break;                        // needle
        case 2: c = 0; break;                                       // plate
        default: { double t = 6.2831853 * a; a = 0.5 + 0.5 * std::cos(t); b = 0.5 + 0.5 * std::sin(t); c = 0.1 * c; } // ring
        }
        x[3 * i] = ox + lx * a, x[3 * i + 1] = lx * b, x[3 * i + 2] = lx * c;
    }
    return x;
}
static const char *names[] = {"svd", "full", "partial", "symmetric"};
template <typename T>
std::shared_ptr<VirtualLowRankGenerator<T>> compressor(int k) {
    switch (k) {
    case 0: return std::make_shared<SVD<T>>();
    case 1: return std::make_shared<fullACA<T>>();
    case 2: return std::make_shared<partialACA<T>>();
    default: return std::make_shared<sympartialACA<T>>();
    }
}
template <typename T>
double fro(const std::vector<T> &a) {
    double s = 0;
    for (auto &v : a) s += std::norm(v);
    return std::sqrt(s);
}
// relative tails of the singular values: tails[k] = error of the best approximation of rank k
template <typename T>
std::vector<double> tails(std::vector<T> a, int m, int n) { // one-sided Jacobi on the shorter side
    if (m < n) {
        std::vector<T> b(a.size());
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) b[size_t(i) * n + j] = cj(a[size_t(j) * m + i]);
        a.swap(b);
        std::swap(m, n);
    }
    for (int sweep = 0; sweep < 60; sweep++) {
        bool done = true;
        for (int p = 0; p < n; p++)
            for (int s = p + 1; s < n; s++) {
                double al = 0, be = 0;
                T ga = T(0);
                T *x = &a[size_t(p) * m], *y = &a[size_t(s) * m];
                for (int i = 0; i < m; i++) al += std::norm(x[i]), be += std::norm(y[i]), ga += cj(x[i]) * y[i];
                double g = std::abs(ga);
                if (g <= 1e-15 * std::sqrt(al * be) || g == 0) continue;
                done        = false;
                double ze = (be - al) / (2 * g), t = (ze >= 0 ? 1 : -1) / (std::fabs(ze) + std::sqrt(1 + ze * ze)), c = 1 / std::sqrt(1 + t * t), sn = c * t;
                T ph = ga / g;
                for (int i = 0; i < m; i++) {
                    T u = x[i], v = y[i] * cj(ph);
                    x[i] = c * u - sn * v;
                    y[i] = (sn * u + c * v);
                }
            }
        if (done) break;
    }
    std::vector<double> s(static_cast<size_t>(n)), t(size_t(n) + 1, 0.);
    for (int p = 0; p < n; p++) {
        double z = 0;
        for (int i = 0; i < m; i++) z += std::norm(a[size_t(p) * m + i]);
        s[p] = z;
    }
    std::sort(s.rbegin(), s.rend());
    for (int k = n - 1; k >= 0; k--) t[k] = t[k + 1] + s[k];
    double tot = t[0];
    for (auto &v : t) v = tot > 0 ? std::sqrt(v / tot) : 0;
    return t;
}
template <typename T>
double error_of(const std::vector<T> &B, const Matrix<T> &U, const Matrix<T> &V, int m, int n) {
    int k = std::min(U.nb_cols(), V.nb_rows());
    std::vector<T> d(B);
    if (U.nb_rows() == m && V.nb_cols() == n)
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++)
                for (int l = 0; l < k; l++) d[size_t(j) * m + i] -= U(i, l) * V(l, j);
    double nb = fro(B), e = fro(d);
    return nb > 0 ? e / nb : e;
}
template <typename T>
void compress(Trace &tr, Rng &r) {
    int m = r.chance(12) ? r.range(1, 3) : r.range(4, 50), n = r.chance(12) ? r.range(1, 3) : r.range(4, 50);
    Kern<T> g;
    g.kind  = r.pick(std::vector<int>{0, 0, 1, 2, 3, 4, 4, 5});
    if (g.kind == 5 && r.chance(70)) g.kind = 0;
    g.shift = r.chance(50) ? 0.01 : 1;
    g.unit  = r.pick(std::vector<int>{0, 0, 0, -30, -44, -60, 40, 60});
    g.wave  = is_c<T>::value ? ru(r) * 2 : 0;
    g.sym   = 'S';
    double sep = 2 + 2 * ru(r); // distance of the two sets, relative to their diameter
    bool before = r.chance(50);
    g.x = cloud(r, m, r.range(0, 3), 1, before ? -sep - 1 : sep);
    g.y = cloud(r, n, r.range(0, 3), 1, 0);
    int ex = -1;
    if (g.kind == 4) {
        ex = g.k = r.range(1, std::max(1, std::min(8, std::min(m, n) / 2)));
        g.P.resize(size_t(m) * ex);
        g.Q.resize(size_t(n) * ex);
        for (auto &v : g.P) v = Kern<T>::phase(0.2 + ru(r), 6.28 * ru(r), T(0)) * (r.chance(50) ? 1. : -1.);
        for (auto &v : g.Q) v = Kern<T>::phase(0.2 + ru(r), 6.28 * ru(r), T(0)) * (r.chance(50) ? 1. : -1.);
    }
    Cl t = cloud_tree(r, g.x, 5), s = cloud_tree(r, g.y, 5);
    g.pt = &t.get_permutation();
    g.ps = &s.get_permutation();
    std::vector<T> B(size_t(m) * n);
    g.copy_submatrix(m, n, 0, 0, B.data());
    auto tl = tails(B, m, n);
    for (int rep = 0; rep < 4; rep++) {
        int how    = r.range(0, 3);
        int epsE   = r.range(1, 10), req = r.chance(70) ? -1 : r.range(1, 12);
        double eps = std::pow(10., -epsE);
        int rank   = req;
        auto c     = compressor<T>(how);
        Matrix<T> U, V;
        int path = r.range(0, 1);
        if (path == 0)
            c->copy_low_rank_approximation(g, t, s, eps, rank, U, V);
        else {
            LowRankMatrix<T> L(g, *c, t, s, req, eps);
            U = L.get_U(), V = L.get_V(), rank = L.rank_of() > 0 ? L.rank_of() : -1;
        }
        double err = error_of(B, U, V, m, n);
        std::vector<int> tt;
        for (auto v : tl) tt.push_back(up(1000 * v / eps));
        int k = std::min(req, std::min(m, n));
        Ev e("compress");
        e.s("how", names[how]).i("m", m).i("n", n).i("req", req).i("eps", epsE).i("exact", ex).i("kind", g.kind).i("unit", g.unit).i("um", U.nb_rows()).i("un", U.nb_cols()).i("vm", V.nb_rows()).i("vn", V.nb_cols()).i("reported", rank);
        e.i("ratio", up(1000 * err / eps)).i("round", up(err * 1e13)).seq("tails", tt).i("best", req > 0 && U.nb_cols() == k ? up(1000 * (err / (tl[size_t(k)] + 1e-13))) : 0);
        tr.put(e);
    }
}
// blocks with more coefficients than an int counts: the same contracts, the error is sampled
template <typename T>
void compress_large(Trace &tr, Rng &r) {
    int m = r.pick(std::vector<int>{46400, 50000, 65536, 70000, 120000}), n = m == 120000 ? 20000 : r.pick(std::vector<int>{m, 65536});
    Kern<T> g;
    g.kind = 4;
    g.sym  = 'S';
    if (r.chance(50)) std::swap(m, n);
    g.x = cloud(r, m, 0, 1, 4);
    g.y = cloud(r, n, 0, 1, 0);
    int ex = g.k = r.range(1, 3);
    g.P.resize(size_t(m) * ex);
    g.Q.resize(size_t(n) * ex);
    for (auto &v : g.P) v = Kern<T>::phase(0.2 + ru(r), 6.28 * ru(r), T(0)) * (r.chance(50) ? 1. : -1.);
    for (auto &v : g.Q) v = Kern<T>::phase(0.2 + ru(r), 6.28 * ru(r), T(0)) * (r.chance(50) ? 1. : -1.);
    Cl t = cloud_tree(r, g.x, 2000), s = cloud_tree(r, g.y, 2000);
    g.pt = &t.get_permutation();
    g.ps = &s.get_permutation();
    for (int how = 2; how < 4; how++) {
        int epsE = r.range(2, 8), req = r.chance(70) ? -1 : ex, rank = req;
        auto c   = compressor<T>(how);
        Matrix<T> U, V;
        c->copy_low_rank_approximation(g, t, s, std::pow(10., -epsE), rank, U, V);
        double err = 0, nb = 0;
        for (int l = 0; l < 4000; l++) {
            int i = r.range(0, m - 1), j = r.range(0, n - 1);
            T b, d;
            g.copy_submatrix(1, 1, i, j, &b);
            d = b;
            for (int q = 0; q < U.nb_cols(); q++) d -= U(i, q) * V(q, j);
            nb += std::norm(b), err += std::norm(d);
        }
        err = std::sqrt(err / nb);
        std::vector<int> tt(size_t(ex), 1000000);
        tt.push_back(0);
        Ev e("compress");
        e.s("how", names[how]).i("m", m).i("n", n).i("req", req).i("eps", epsE).i("exact", ex).i("kind", g.kind).i("unit", 0).i("um", U.nb_rows()).i("un", U.nb_cols()).i("vm", V.nb_rows()).i("vn", V.nb_cols()).i("reported", rank);
        e.i("ratio", up(1000 * err * std::pow(10., epsE))).i("round", up(err * 1e13)).seq("tails", tt).i("best", 0);
        tr.put(e);
    }
}
template <typename T>
void recompress(Trace &tr, Rng &r) {
    int m = r.range(1, 30), n = r.range(1, 30), k = r.chance(15) ? r.range(0, 1) : r.range(2, 24), ex = r.range(1, 6), epsE = r.range(1, 10);
    double eps = std::pow(10., -epsE);
    LowRankMatrix<T> L(eps);
    // factors whose product has quickly decreasing singular values
    Matrix<T> U(m, k), V(k, n);
    bool lowrank = r.chance(30);
    double unit  = std::ldexp(1., r.pick(std::vector<int>{0, 0, -50, 50})); // the contracts do not depend on the scale
    for (int l = 0; l < k; l++) {
        double d = lowrank ? (l < ex ? 1 : 0) : std::pow(10., -0.6 * l);
        for (int i = 0; i < m; i++) U(i, l) = Kern<T>::phase(ru(r) - 0.5, 6.28 * ru(r), T(0)) * d * unit;
        for (int j = 0; j < n; j++) V(l, j) = Kern<T>::phase(ru(r) - 0.5, 6.28 * ru(r), T(0));
    }
    L.get_U() = U;
    L.get_V() = V;
    std::vector<T> B(size_t(m) * n, T(0));
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++)
            for (int l = 0; l < k; l++) B[size_t(j) * m + i] += U(i, l) * V(l, j);
    auto tl = tails(B, m, n);
    std::vector<int> tt;
    for (auto v : tl) tt.push_back(up(1000 * v / eps));
    bool place = r.chance(50), kept = true;
    LowRankMatrix<T> R(eps);
    if (place) {
        R = L;
        recompression(R);
    } else {
        auto p = recompression(static_cast<const LowRankMatrix<T> &>(L));
        R      = *p;
        kept   = error_of(B, L.get_U(), L.get_V(), m, n) < 1e-12 && L.rank_of() == k;
    }
    double err = error_of(B, R.get_U(), R.get_V(), m, n);
    Ev e("recompress");
    e.i("m", m).i("n", n).i("k", k).i("eps", epsE).i("um", R.get_U().nb_rows()).i("un", R.get_U().nb_cols()).i("vm", R.get_V().nb_rows()).i("vn", R.get_V().nb_cols()).i("ratio", up(1000 * err / eps)).seq("tails", tt).b("kept", kept).i("tol", up(std::fabs(R.get_epsilon() / eps - 1) * 1e9));
    tr.put(e);
}
template <typename T>
void assemble(Trace &tr, Rng &r) {
    int n = r.range(30, 160), m = r.chance(50) ? n : r.range(30, 160), epsE = r.range(1, 10), how = r.range(0, 3), parts = r.chance(60) ? 1 : r.range(2, 4);
    double eps = std::pow(10., -epsE);
    bool same  = r.chance(60);
    Kern<T> g;
    g.kind  = r.pick(std::vector<int>{0, 0, 1, 2, 3, 4});
    g.shift = 0.02 + ru(r);
    g.unit  = r.pick(std::vector<int>{0, 0, 0, -30, -44, -60, 40, 60});
    g.wave  = is_c<T>::value ? ru(r) * 2 : 0;
    int shape = r.range(0, 3);
    double L  = 3 + 3 * ru(r);
    char sym  = 'N', uplo = 'N';
    if (same && r.chance(70)) {
        sym  = is_c<T>::value && r.chance(50) ? 'H' : 'S';
        uplo = r.chance(50) ? 'L' : 'U';
    }
    g.sym = sym == 'H' ? 'H' : 'S';
    g.x   = cloud(r, n, shape, L, 0);
    if (same)
        g.y = g.x, m = n;
    else
        g.y = cloud(r, m, r.range(0, 3), L, r.chance(50) ? 0 : 1.5 * L);
    if (g.kind == 4) {
        g.k = r.range(1, 3);
        g.P.resize(size_t(n) * g.k);
        g.Q.resize(size_t(m) * g.k);
        for (auto &v : g.P) v = Kern<T>::phase(0.2 + ru(r), 6.28 * ru(r), T(0));
        for (auto &v : g.Q) v = Kern<T>::phase(0.2 + ru(r), 6.28 * ru(r), T(0));
        if (sym != 'N') {
            g.Q = g.P;
            if (sym == 'H')
                for (auto &v : g.Q) v = cj(v);
        }
    }
    int mcs = r.range(4, 12);
    Cl t = cloud_tree(r, g.x, mcs, parts), s2 = same ? Cl(cloud_tree(r, g.y, mcs)) : cloud_tree(r, g.y, mcs);
    const Cl &s = same ? t : s2;
    if (int(t.get_clusters_on_partition().size()) != parts) return;
    for (auto p : t.get_clusters_on_partition())
        if (!p) return;
    errors().errors = 0;
    g.pt = &t.get_permutation();
    g.ps = &s.get_permutation();
    double eta = r.range(1, 6) * 0.5;
    int tp     = parts > 1 && r.chance(40) ? r.range(0, parts - 1) : -1;
    HMatrixTreeBuilder<T, double> b(t, s, eps, eta, sym, uplo, -1, tp, tp >= 0 && sym != 'N' ? tp : -1);
    bool given = r.chance(70);
    if (given) b.set_low_rank_generator(compressor<T>(how)); // otherwise the default one
    bool user  = r.chance(50);
    std::unique_ptr<HMatrix<T>> h;
    if (user)
        h.reset(new HMatrix<T>(b.build(static_cast<const VirtualGenerator<T> &>(g))));
    else
        h.reset(new HMatrix<T>(b.build(static_cast<const VirtualInternalGenerator<T> &>(g))));
    // whole matrix
    int M = h->nb_rows(), N = h->nb_cols(), r0 = h->get_target_cluster().get_offset(), c0 = h->get_source_cluster().get_offset();
    std::vector<T> ref(size_t(M) * N), got = full_dense<T>(*h);
    g.copy_submatrix(M, N, r0, c0, ref.data());
    double norm = fro(ref);
    for (size_t k = 0; k < ref.size(); k++) got[k] -= ref[k];
    // leaves: [m, n, dense, rank, ratio or exactness, rounding]
    std::vector<std::vector<int>> lv;
    for (auto x : all_nodes(*h))
        if (x->is_leaf()) {
            int p = x->nb_rows(), q2 = x->nb_cols();
            std::vector<T> B(size_t(p) * q2), C = leaf_content<T>(*x);
            g.copy_submatrix(p, q2, x->get_target_cluster().get_offset(), x->get_source_cluster().get_offset(), B.data());
            double nb = fro(B);
            for (size_t k = 0; k < B.size(); k++) C[k] -= B[k];
            double e = fro(C);
            bool d   = x->is_dense();
            if (d && x->get_symmetry() != 'N') { // one triangle counts
                for (int j = 0; j < q2; j++)
                    for (int i = 0; i < p; i++)
                        if (x->get_UPLO() == 'L' ? i < j : i > j) C[size_t(j) * p + i] = T(0);
                e = fro(C);
            }
            lv.push_back({p, q2, d ? 1 : 0, d ? -1 : x->get_rank(), d ? up(e * 1e16) : up(1000 * e / (eps * nb)), d ? 0 : up(1e13 * e / nb)});
        }
    Ev e("assembled");
    e.s("how", given ? names[how] : "default").i("kind", g.kind).i("unit", g.unit).i("exact", g.kind == 4 ? g.k : -1).i("eps", epsE).c("sym", sym).c("uplo", uplo).i("m", M).i("n", N).i("ratio", up(1000 * fro(got) / (eps * norm))).i("round", up(1e13 * fro(got) / norm)).raw("leaves", jseq(lv)).i("err", errors().errors);
    tr.put(e);
}
// arithmetic with matrices compressed at a tolerance: the error of the result against the dense
// arithmetic of what the operands store (H04 products, H05 updates, H06 factorisations, H07 triangular solves)
template <typename T>
struct Comp { // a compressed kernel matrix
    Kern<T> g;
    std::unique_ptr<HMatrix<T>> h;
    int epsE = 0;
    double eps() const { return std::pow(10., -epsE); }
};
template <typename T>
void fill(Rng &r, Comp<T> &c, const Cl &t, const std::vector<double> &x, const Cl &s, const std::vector<double> &y, int epsE, char sym = 'N', char uplo = 'N', double dominance = 0, bool consistent = false) {
    Kern<T> &g = c.g;
    c.epsE  = epsE;
    g.kind  = r.range(0, 3);
    g.shift = 0.1 + ru(r);
    g.wave  = is_c<T>::value ? ru(r) : 0;
    g.sym   = sym == 'H' || (sym == 'N' && r.chance(30)) ? 'H' : 'S';
    g.x = x, g.y = y;
    g.pt = &t.get_permutation(), g.ps = &s.get_permutation();
    int n = t.get_size();
    if (sym == 'N')
        for (int i = 0; i < n; i++) g.skew.push_back(0.5 + ru(r));
    if (dominance > 0) {
        double worst = 0;
        for (int i = 0; i < n; i++) {
            double a = 0, b = 0;
            for (int j = 0; j < n; j++) a += std::abs(g.at(i, j)), b += std::abs(g.at(j, i));
            worst = std::max(worst, std::max(a, b));
        }
        g.dominant = dominance * worst;
    }
    HMatrixTreeBuilder<T, double> b(t, s, c.eps(), r.range(1, 8) * 0.5, sym, uplo, -1, -1, -1);
    b.set_low_rank_generator(compressor<T>(r.range(0, 2)));
    if (!consistent && r.chance(30)) b.set_block_tree_consistency(false);
    c.h.reset(new HMatrix<T>(b.build(static_cast<const VirtualInternalGenerator<T> &>(g))));
}
template <typename T>
LowRankMatrix<T> smooth_lr(Rng &r, int m, int n, double eps) { // decreasing singular values
    int k = r.chance(10) ? 0 : r.range(1, std::min(8, std::min(m, n)));
    LowRankMatrix<T> L(eps);
    Matrix<T> U(m, k), V(k, n);
    double base = std::pow(10., -1 - 0.5 * r.range(-1, 2)), p = 1 + r.range(0, 3), q = 1 + r.range(0, 3);
    for (int l = 0; l < k; l++) {
        for (int i = 0; i < m; i++) U(i, l) = Kern<T>::phase(std::cos((l + 1) * p * i / m) * std::pow(base, l), 0.7 * l, T(0));
        for (int j = 0; j < n; j++) V(l, j) = Kern<T>::phase(std::sin(1 + (l + 1) * q * j / n), 0.3 * l, T(0));
    }
    L.get_U() = U;
    L.get_V() = V;
    return L;
}
template <typename T>
T coef(Rng &r, bool zero) {
    if (zero && r.chance(20)) return T(0);
    return r.chance(30) ? T(1) : Kern<T>::phase((r.chance(50) ? 1 : -1) * (0.3 + ru(r)), 6.28 * ru(r), T(0));
}
template <typename T>
std::vector<T> dense_lr(const LowRankMatrix<T> &L, int m, int n) {
    std::vector<T> d(size_t(m) * n, T(0));
    const auto &U = L.get_U();
    const auto &V = L.get_V();
    for (int l = 0; l < L.rank_of(); l++)
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) d[size_t(j) * m + i] += U(i, l) * V(l, j);
    return d;
}
template <typename T>
std::vector<T> oper(char t, const std::vector<T> &a, int m, int n) { // stored m x n
    if (t == 'N') return a;
    std::vector<T> b(a.size());
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) b[size_t(i) * n + j] = t == 'C' ? cj(a[size_t(j) * m + i]) : a[size_t(j) * m + i];
    return b;
}
template <typename T>
std::vector<T> times(const std::vector<T> &a, const std::vector<T> &b, int m, int k, int n) {
    std::vector<T> c(size_t(m) * n, T(0));
    for (int j = 0; j < n; j++)
        for (int l = 0; l < k; l++) {
            T v = b[size_t(j) * k + l];
            for (int i = 0; i < m; i++) c[size_t(j) * m + i] += a[size_t(l) * m + i] * v;
        }
    return c;
}
template <typename T>
double apart(std::vector<T> a, const std::vector<T> &b) {
    for (size_t i = 0; i < a.size(); i++) a[i] -= b[i];
    return fro(a);
}
inline void arithmetic(Trace &tr, const std::string &f, int epsE, double err, double scale, int rank, int least, bool kept) {
    Ev e("arithmetic");
    e.s("f", f).i("eps", epsE).i("ratio", up(1000 * err / scale * std::pow(10., epsE))).i("round", up(1e13 * err / scale)).i("rank", rank).i("least", least).i("kept", kept ? 1 : 0).i("err", errors().errors);
    tr.put(e);
}
template <typename T>
void approx_products(Trace &tr, Rng &r) {
    int nm = r.range(20, 110), nk = r.range(20, 110), nn = r.range(20, 110), mcs = r.range(4, 12);
    double L = 3 + 3 * ru(r);
    auto xm = cloud(r, nm, r.range(0, 3), L, 0), xk = cloud(r, nk, r.range(0, 3), L, r.chance(50) ? 0 : 0.7 * L), xn = cloud(r, nn, r.range(0, 3), L, r.chance(50) ? 0 : L);
    Cl tm = cloud_tree(r, xm, mcs), tk = cloud_tree(r, xk, mcs), tn = cloud_tree(r, xn, mcs);
    bool mk = r.chance(40), mn = r.chance(40);
    const Cl &M = tm, &K = mk ? tm : tk, &N = mn ? tm : tn;
    auto &XK = mk ? xm : xk;
    auto &XN = mn ? xm : xn;
    nk = K.get_size(), nn = N.get_size();
    omp_set_num_threads(r.range(1, 4));
    for (int rep = 0; rep < 3; rep++) {
        char ta = rtrans(r), tb = rtrans(r);
        int epsE = r.range(1, 9);
        auto near = [&] { return r.chance(60) ? epsE : r.range(1, 9); };
        int eA = near(), eB = near();
        char ka = "HHHLD"[r.range(0, 4)], kb = ka == 'H' ? "HHLD"[r.range(0, 3)] : "HHL"[r.range(0, 2)];
        char kc = ka == 'H' && kb == 'H' ? "HHLD"[r.range(0, 3)] : ka == 'D' || kb == 'D' ? 'L' : ka == 'H' || kb == 'H' ? "HLD"[r.range(0, 2)] : 'L';
        Comp<T> A, B, C;
        errors().errors = 0;
        char sa = 'N', sb = 'N';
        const Cl &A1 = ta == 'N' ? M : K, &A2 = ta == 'N' ? K : M, &B1 = tb == 'N' ? K : N, &B2 = tb == 'N' ? N : K;
        auto &XA1 = ta == 'N' ? xm : XK, &XA2 = ta == 'N' ? XK : xm, &XB1 = tb == 'N' ? XK : XN, &XB2 = tb == 'N' ? XN : XK;
        if (ka == 'H') fill(r, A, A1, XA1, A2, XA2, eA, sa);
        if (kb == 'H') fill(r, B, B1, XB1, B2, XB2, eB, sb);
        if (kc == 'H') fill(r, C, M, xm, N, XN, epsE);
        int a1 = A1.get_size(), a2 = A2.get_size(), b1 = B1.get_size(), b2 = B2.get_size();
        auto LA = smooth_lr<T>(r, a1, a2, std::pow(10., -eA)), LB = smooth_lr<T>(r, b1, b2, std::pow(10., -eB)), LC = smooth_lr<T>(r, nm, nn, std::pow(10., -epsE));
        auto rnd = [&](int p, int q) {
            Matrix<T> D(p, q);
            for (int j = 0; j < q; j++)
                for (int i = 0; i < p; i++) D(i, j) = Kern<T>::phase(ru(r) - 0.5, 6.28 * ru(r), T(0));
            return D;
        };
        auto vec = [](const Matrix<T> &D) { return std::vector<T>(D.data(), D.data() + size_t(D.nb_rows()) * D.nb_cols()); };
        Matrix<T> DA = rnd(a1, a2), DB = rnd(b1, b2), DC = rnd(nm, nn);
        std::vector<T> a = oper(ta, ka == 'H' ? full_dense<T>(*A.h) : ka == 'L' ? dense_lr(LA, a1, a2) : vec(DA), a1, a2);
        std::vector<T> b = oper(tb, kb == 'H' ? full_dense<T>(*B.h) : kb == 'L' ? dense_lr(LB, b1, b2) : vec(DB), b1, b2);
        auto content     = [&] { return kc == 'H' ? full_dense<T>(*C.h) : kc == 'L' ? dense_lr(LC, nm, nn) : vec(DC); };
        std::vector<T> c = content();
        T alpha = coef<T>(r, false), beta = coef<T>(r, true);
        // low-rank targets with products of a dense factor: the factor may have full rank
        auto go = [&](auto fn) {
            if (kc == 'H') fn(*C.h);
            else if (kc == 'L') fn(LC);
            else fn(DC);
        };
        errors().errors = 0;
        if (ka == 'H' && kb == 'H')
            go([&](auto &X) { internal_add_hmatrix_hmatrix_product(ta, tb, alpha, *A.h, *B.h, beta, X); });
        else if (ka == 'H' && kb == 'L')
            go([&](auto &X) { internal_add_hmatrix_lrmat_product(ta, tb, alpha, *A.h, LB, beta, X); });
        else if (ka == 'L' && kb == 'H')
            go([&](auto &X) { internal_add_lrmat_hmatrix_product(ta, tb, alpha, LA, *B.h, beta, X); });
        else if (ka == 'H' && kb == 'D')
            internal_add_hmatrix_matrix_product(ta, tb, alpha, *A.h, DB, beta, LC);
        else if (ka == 'D' && kb == 'H')
            internal_add_matrix_hmatrix_product(ta, tb, alpha, DA, *B.h, beta, LC);
        else if (ka == 'L' && kb == 'L')
            add_lrmat_lrmat_product(ta, tb, alpha, LA, LB, beta, LC);
        else if (ka == 'D' && kb == 'L')
            add_matrix_lrmat_product(ta, tb, alpha, DA, LB, beta, LC);
        std::vector<T> want = times(a, b, nm, nk, nn);
        double scale        = std::abs(alpha) * fro(a) * fro(b) + std::abs(beta) * fro(c) + 1e-300;
        for (size_t i = 0; i < want.size(); i++) want[i] = alpha * want[i] + beta * c[i];
        double err = apart(content(), want);
        int least = -1, rank = kc == 'L' ? LC.rank_of() : -1;
        if (kc == 'L') {
            auto tl = tails(want, nm, nn);
            double f = fro(want) / scale;
            least = 0;
            while (least + 1 < int(tl.size()) && tl[size_t(least)] * f > 0.1 * std::pow(10., -epsE)) least++;
        }
        bool kept = apart(oper(ta, ka == 'H' ? full_dense<T>(*A.h) : ka == 'L' ? dense_lr(LA, a1, a2) : vec(DA), a1, a2), a) == 0 && apart(oper(tb, kb == 'H' ? full_dense<T>(*B.h) : kb == 'L' ? dense_lr(LB, b1, b2) : vec(DB), b1, b2), b) == 0;
        // partial results that live in no block of C have the tolerance of the operands
        int loose = epsE;
        if (kc == 'H') {
            if (ka != 'D') loose = std::min(loose, eA);
            if (kb != 'D') loose = std::min(loose, eB);
        }
        arithmetic(tr, std::string() + ka + kb + kc, loose, err, scale, rank, least, kept);
    }
}
template <typename T>
void approx_updates(Trace &tr, Rng &r) {
    int nm = r.range(20, 150), nn = r.range(20, 150), mcs = r.range(4, 12);
    double L = 3 + 3 * ru(r);
    auto xm = cloud(r, nm, r.range(0, 3), L, 0), xn = cloud(r, nn, r.range(0, 3), L, r.chance(50) ? 0 : 0.7 * L);
    Cl tm = cloud_tree(r, xm, mcs), tn = cloud_tree(r, xn, mcs);
    bool mn = r.chance(50);
    Comp<T> A;
    fill(r, A, tm, xm, mn ? tm : tn, mn ? xm : xn, r.range(1, 9));
    omp_set_num_threads(r.range(1, 4));
    for (int rep = 0; rep < 4; rep++) {
        auto nodes = all_nodes(*A.h);
        auto *b    = const_cast<HMatrix<T> *>(r.chance(40) ? A.h.get() : nodes[r.range(0, int(nodes.size()) - 1)]);
        int m = b->nb_rows(), n = b->nb_cols();
        auto X = smooth_lr<T>(r, m, n, std::pow(10., -r.range(1, 9)));
        std::vector<T> x = dense_lr(X, m, n), want = full_dense<T>(*b);
        double scale = fro(x) + fro(want) + 1e-300;
        for (size_t i = 0; i < want.size(); i++) want[i] += x[i];
        errors().errors = 0;
        internal_add_lrmat_hmatrix(X, *b);
        double err = apart(full_dense<T>(*b), want);
        arithmetic(tr, "add", A.epsE, err, scale, -1, -1, apart(dense_lr(X, m, n), x) == 0);
    }
}
template <typename T>
void approx_solves(Trace &tr, Rng &r, bool factor) {
    int n = r.range(20, 150), mcs = r.range(4, 12), epsE = r.range(2, 9);
    double L = 3 + 3 * ru(r);
    auto x = cloud(r, n, r.range(0, 3), L, 0), y = cloud(r, r.range(20, 80), r.range(0, 3), L, r.chance(50) ? 0 : 0.7 * L);
    Cl t = cloud_tree(r, x, mcs), s = cloud_tree(r, y, mcs);
    omp_set_num_threads(r.range(1, 4));
    Comp<T> A;
    auto mat = [&](const std::vector<T> &v, int m, int k) {
        Matrix<T> D(m, k);
        std::copy(v.begin(), v.end(), D.data());
        return D;
    };
    auto rnd = [&](int p, int q) {
        std::vector<T> v(size_t(p) * q);
        for (auto &z : v) z = Kern<T>::phase(ru(r) - 0.5, 6.28 * ru(r), T(0));
        return v;
    };
    auto vec = [](const Matrix<T> &D) { return std::vector<T>(D.data(), D.data() + size_t(D.nb_rows()) * D.nb_cols()); };
    if (factor) {
        bool chol = r.chance(50);
        char uplo = r.chance(50) ? 'L' : 'U', sym = chol ? (is_c<T>::value ? 'H' : 'S') : 'N';
        fill(r, A, t, x, t, x, epsE, sym, chol ? uplo : 'N', 1.1, true);
        std::vector<T> a = full_dense<T>(*A.h);
        errors().errors = 0;
        if (chol) cholesky_factorization(uplo, *A.h); else lu_factorization(*A.h);
        for (int rep = 0; rep < 2; rep++) {
            char tt = chol ? 'N' : rtrans(r);
            int mu  = r.range(1, 20);
            auto X0 = rnd(n, mu);
            Matrix<T> X = mat(times(oper(tt, a, n, n), X0, n, n, mu), n, mu);
            if (chol) internal_cholesky_solve(uplo, *A.h, X); else internal_lu_solve(tt, *A.h, X);
            arithmetic(tr, chol ? "cholesky" : "lu", epsE, apart(vec(X), X0), fro(X0), -1, -1, true);
        }
        return;
    }
    char side = r.chance(50) ? 'L' : 'R', uplo = r.chance(50) ? 'L' : 'U', ta = rtrans(r), diag = 'N';
    fill(r, A, t, x, t, x, r.range(1, 9), 'N', 'N', 2, true);
    std::vector<T> a = full_dense<T>(*A.h);
    for (int j = 0; j < n; j++)
        for (int i = 0; i < n; i++)
            if (uplo == 'L' ? i < j : i > j) a[size_t(j) * n + i] = T(0);
    a = oper(ta, a, n, n);
    int q = s.get_size(), bm = side == 'L' ? n : q, bn = side == 'L' ? q : n;
    T alpha = coef<T>(r, false);
    for (int rep = 0; rep < 3; rep++) {
        // the solution is read off the result: op(A) X = alpha B, so the residual is measured
        auto check = [&](const char *f, int e, const std::vector<T> &B, const std::vector<T> &X) {
            std::vector<T> ax = side == 'L' ? times(a, X, bm, bm, bn) : times(X, a, bm, bn, bn), ab = B;
            for (auto &v : ab) v *= alpha;
            arithmetic(tr, f, e, apart(ax, ab), A.g.dominant * fro(X) + 1e-300, -1, -1, true);
        };
        errors().errors = 0;
        int kind = r.range(0, 2);
        if (kind == 0) {
            auto B = rnd(bm, bn);
            Matrix<T> X = mat(B, bm, bn);
            internal_triangular_hmatrix_matrix_solve(side, uplo, ta, diag, alpha, *A.h, X);
            check("solveD", -1, B, vec(X));
        } else if (kind == 1) {
            int e  = r.range(1, 9);
            auto X = smooth_lr<T>(r, bm, bn, std::pow(10., -e));
            auto B = dense_lr(X, bm, bn);
            internal_triangular_hmatrix_lrmat_solve(side, uplo, ta, diag, alpha, *A.h, X);
            check("solveL", -1, B, dense_lr(X, bm, bn));
        } else {
            Comp<T> X;
            int e = r.range(1, 9);
            if (side == 'L') fill(r, X, t, x, s, y, e, 'N', 'N', 0, true); else fill(r, X, s, y, t, x, e, 'N', 'N', 0, true);
            auto B = full_dense<T>(*X.h);
            internal_triangular_hmatrix_hmatrix_solve(side, uplo, ta, diag, alpha, *A.h, *X.h);
            check("solveH", std::min(e, A.epsE), B, full_dense<T>(*X.h));
        }
    }
}
int main(int argc, char **argv) {
    std::string suite = arg(argc, argv, "--suite", "L01"), out = arg(argc, argv, "--out", "/tmp/trace");
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 20), shards = argi(argc, argv, "--shards", 1);
    errors();
    Trace tr(out, int(shards));
    for (int c = 0; c < cases; c++) {
        Rng r(uint64_t(seed) * 1000003 + uint64_t(c) + 4242);
        tr.begin_case();
        if (suite == "L01") {
            if (c % 40 == 19) {
                if (c % 80 == 19) compress_large<double>(tr, r); else compress_large<cd>(tr, r);
            } else if (c % 2)
                compress<double>(tr, r);
            else
                compress<cd>(tr, r);
        } else if (suite == "L02") {
            if (c % 2) recompress<double>(tr, r); else recompress<cd>(tr, r);
        } else if (suite == "H04") {
            if (c % 2) approx_products<double>(tr, r); else approx_products<cd>(tr, r);
        } else if (suite == "H05") {
            if (c % 2) approx_updates<double>(tr, r); else approx_updates<cd>(tr, r);
        } else if (suite == "H06" || suite == "H07") {
            if (c % 2) approx_solves<double>(tr, r, suite == "H06"); else approx_solves<cd>(tr, r, suite == "H06");
        } else {
            if (c % 2) assemble<double>(tr, r); else assemble<cd>(tr, r);
        }
    }
    return 0;
}
