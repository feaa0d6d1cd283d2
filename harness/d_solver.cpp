// Local solvers (S01): the system they were given is kept whole by the trace; HPDDM, which would call them, is a stand-in.
#include "agen.hpp"
#include <htool/hmatrix/linalg/factorization.hpp>
#include <htool/solvers/local_solvers/local_dense_solvers.hpp>
#include <htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp>
#include <htool/solvers/local_solvers/local_hmatrix_solvers.hpp>
using namespace vf;
using namespace htool;

template <typename T>
std::vector<T> times(const std::vector<T> &A, int n, const std::vector<T> &X, int mu) {
    std::vector<T> R(size_t(n) * mu, T(0));
    for (int c = 0; c < mu; c++)
        for (int j = 0; j < n; j++)
            for (int i = 0; i < n; i++) R[size_t(c) * n + i] += A[size_t(j) * n + i] * X[size_t(c) * n + j];
    return R;
}
// several solves with one factorisation; `perm`: position -> local user index (empty: the solver's own numbering)
template <typename T>
void solves(Trace &tr, Rng &r, VirtualLocalSolver<T> &s, const std::vector<T> &M, int n, const std::vector<int> &perm, const std::string &kind) {
    HPDDM::MatrixCSR<T> *none = nullptr;
    errors().errors = 0;
    s.numfact(none);
    Ev f("factor");
    f.s("x", "A").s("kind", kind).s("how", "solver").i("err", errors().errors).raw("obs", "[]");
    tr.put(f);
    for (int rep = r.range(2, 5); rep > 0; rep--) {
        unsigned short mu = (unsigned short)r.some(1, 4);
        auto B = times(M, n, rvec<T>(r, n * mu, -2, 2), mu);
        if (r.chance(5)) std::fill(B.begin(), B.end(), T(0));
        std::vector<T> b = B;
        if (!perm.empty())
            for (int k = 0; k < mu; k++)
                for (int i = 0; i < n; i++) b[size_t(k) * n + perm[i]] = B[size_t(k) * n + i];
        std::vector<T> in = b, x(b.size(), T(std::numeric_limits<double>::quiet_NaN()));
        errors().errors = 0;
        bool place = r.chance(50), def = mu == 1 && r.chance(50), kept = true;
        if (place) {
            def ? s.solve(in.data()) : s.solve(in.data(), mu);
            x = in;
        } else {
            def ? s.solve(in.data(), x.data()) : s.solve(in.data(), x.data(), mu);
            kept = in == b;
        }
        Ev e("solve");
        e.s("x", "A").c("t", 'N').s("num", perm.empty() ? "cluster" : "user").mat("B", b.data(), n, mu).mat("X", x.data(), n, mu).i("err", errors().errors + (kept ? 0 : 1));
        if (!perm.empty()) e.seq("pt", perm);
        tr.put(e);
    }
}
template <typename T>
void exchange_rows(Rng &r, std::vector<T> &M, int n, int lo, int hi) { // makes pivoting necessary
    for (int k = 0; k < 3 && hi > lo; k++) {
        int a = r.range(lo, hi), b = r.range(lo, hi);
        for (int j = 0; j < n; j++) std::swap(M[size_t(j) * n + a], M[size_t(j) * n + b]);
    }
}
template <typename T>
void dense_case(Trace &tr, Rng &r) {
    int n   = r.range(1, 14);
    auto g  = int_op<T>(r, n, n, 'N', -1, 1, r.range(5, 60), true);
    auto M  = g.A;
    exchange_rows(r, M, n, 0, n - 1);
    tr.begin_case();
    tr.put(Ev("case"));
    let_m(tr, "A", M.data(), n, n);
    Matrix<T> A = to_matrix(M, n, n);
    LocalDenseSolver<T> s(A);
    solves(tr, r, s, M, n, {}, "dense");
}
template <typename T>
void h_case(Trace &tr, Rng &r, bool overlap) {
    int n = pick_size(r), ov = overlap ? (r.chance(20) ? 0 : r.range(1, 7)) : 0, N = n + ov;
    Cl t  = pick_tree(r, n);
    HOpt o = ropt(r);
    o.mode = r.chance(30) ? 0 : r.range(2, 3);
    char herm = is_c<T>::value ? 'H' : 'S', content = imposed(imposed_sym(), r.chance(60)) ? herm : 'N';
    char uplo = r.chance(50) ? 'L' : 'U';
    if (imposed_sym()) uplo = forced().sym;
    if (content != 'N') o.sym = is_c<T>::value ? 'H' : r.chance(70) ? 'S' : 'H', o.uplo = uplo;
    auto G = int_op<T>(r, N, N, content, -1, 1, r.range(5, 40), true);
    IntOp<T> g = G;
    g.m = g.n = n;
    g.A.assign(size_t(n) * n, T(0));
    g.P.assign(size_t(n) * g.k, T(0));
    g.Q = g.P;
    for (int j = 0; j < n; j++)
        for (int i = 0; i < n; i++) g.A[size_t(j) * n + i] = G(i, j);
    for (int l = 0; l < g.k; l++)
        for (int i = 0; i < n; i++) g.P[i + l * n] = G.P[i + l * N], g.Q[i + l * n] = G.Q[i + l * N];
    auto &perm = t.get_permutation();
    std::vector<int> where = perm; // position -> index in G
    for (int k = 0; k < ov; k++) where.push_back(n + k);
    if (content == 'N' && r.chance(60)) { // rows exchanged inside the leaves of the tree, and inside the overlap
        auto swap_rows = [&](int a, int b) {
            for (int j = 0; j < N; j++) std::swap(G.A[size_t(j) * N + a], G.A[size_t(j) * N + b]);
            if (a >= n) return;
            for (int j = 0; j < n; j++) std::swap(g.A[size_t(j) * n + a], g.A[size_t(j) * n + b]);
            for (int l = 0; l < g.k; l++) std::swap(g.P[a + l * n], g.P[b + l * n]);
        };
        Flat f = flatten(t);
        for (auto c : f.nodes)
            if (c->get_children().empty() && c->get_size() > 1)
                swap_rows(perm[c->get_offset() + r.range(0, c->get_size() - 1)], perm[c->get_offset() + r.range(0, c->get_size() - 1)]);
        if (ov > 1)
            for (int k = 0; k < 2; k++) swap_rows(n + r.range(0, ov - 1), n + r.range(0, ov - 1));
    }
    errors().errors = 0;
    HObj<T> A = build_h<T>(t, t, g, o);
    omp_set_num_threads(r.range(1, 4));
    int np = int(t.get_clusters_on_partition().size());
    int off = 0, m = n;
    if (np > 1 && r.chance(50)) { // the diagonal block of one part
        auto p   = t.get_clusters_on_partition()[r.range(0, np - 1)];
        auto sub = A.h->get_sub_hmatrix(*p, *p);
        if (!sub) return;
        A.h = std::make_shared<HMatrix<T>>(*sub);
        off = p->get_offset();
        m   = p->get_size();
    }
    int S = m + ov;
    auto at = [&](int i) { return i < m ? where[off + i] : where[n + i - m]; };
    std::vector<T> M(size_t(S) * S);
    for (int j = 0; j < S; j++)
        for (int i = 0; i < S; i++) M[size_t(j) * S + i] = G(at(i), at(j));
    tr.begin_case();
    tr.put(Ev("case"));
    let_m(tr, "A", M.data(), S, S);
    if (!overlap) {
        const Cl &c = A.h->get_target_cluster();
        bool user = (c.is_root() || (is_cluster_on_partition(c) && c.is_permutation_local())) && r.chance(60);
        std::vector<int> loc;
        if (user)
            for (int i = 0; i < m; i++) loc.push_back(perm[off + i] - c.get_offset());
        LocalHMatrixSolver<T> s(*A.h, user);
        solves<T>(tr, r, s, M, S, loc, std::string("hmatrix ") + o.sym + o.uplo);
        return;
    }
    Matrix<T> B, C, D;
    auto cut = [&](int r0, int nr, int c0, int nc) {
        Matrix<T> X(nr, nc);
        for (int j = 0; j < nc; j++)
            for (int i = 0; i < nr; i++) X(i, j) = M[size_t(c0 + j) * S + r0 + i];
        return X;
    };
    bool sized = r.chance(50); // no overlap: blocks without rows or columns, or untouched
    if (ov > 0 || sized) {
        D = cut(m, ov, m, ov);
        if (content == 'N' || uplo == 'U' || r.chance(20)) B = cut(0, m, m, ov);
        if (content == 'N' || uplo == 'L' || r.chance(20)) C = cut(m, ov, 0, m);
    }
    LocalHMatrixPlusOverlapSolver<T> s(*A.h, B, C, D);
    solves<T>(tr, r, s, M, S, {}, std::string("overlap ") + o.sym + o.uplo + (ov ? (is_c<T>::value ? " complex" : " real") : " none"));
}
template <typename T>
void any(Trace &tr, Rng &r) {
    int k = r.range(0, 9);
    if (k < 2) dense_case<T>(tr, r);
    else h_case<T>(tr, r, k >= 5);
}
int main(int argc, char **argv) {
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 10), shards = argi(argc, argv, "--shards", 1);
    Trace tr(arg(argc, argv, "--out", "/tmp/trace"), int(shards));
    errors();
    Rng r(uint64_t(seed) * 977 + 31);
    for (long c = 0; c < cases; c++) {
        Rng rc(r.next());
        rc.chance(50) ? any<cd>(tr, rc) : any<double>(tr, rc);
    }
    replay_structures(arg(argc, argv, "--hist", ""), [&] {
        Rng rc(r.next());
        bool ov = rc.chance(60);
        rc.chance(50) ? h_case<cd>(tr, rc, ov) : h_case<double>(tr, rc, ov);
    });
    return 0;
}
