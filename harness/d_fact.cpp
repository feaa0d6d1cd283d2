// Factorisations and triangular solves of hierarchical matrices (H06, H07).
#include "agen.hpp"
#include <htool/hmatrix/linalg/factorization.hpp>
using namespace vf;
using namespace htool;

template <typename T>
T op_at(const std::vector<T> &A, int m, int n, char t, int i, int j) { // entry (i,j) of op(A), A m x n by columns
    if (t == 'N') return A[size_t(j) * m + i];
    T v = A[size_t(i) * m + j];
    return t == 'C' ? cj(v) : v;
}
template <typename T>
std::vector<T> op_mul(const std::vector<T> &A, int m, int n, char t, const std::vector<T> &X, int k) { // op(A) X
    int p = t == 'N' ? m : n, q = t == 'N' ? n : m;
    std::vector<T> R(size_t(p) * k, T(0));
    for (int c = 0; c < k; c++)
        for (int i = 0; i < p; i++)
            for (int j = 0; j < q; j++) R[size_t(c) * p + i] += op_at(A, m, n, t, i, j) * X[size_t(c) * q + j];
    return R;
}
template <typename T>
std::vector<T> mul_op(const std::vector<T> &X, int k, const std::vector<T> &A, int m, int n, char t) { // X op(A), X k x rows
    int p = t == 'N' ? m : n, q = t == 'N' ? n : m;
    std::vector<T> R(size_t(k) * q, T(0));
    for (int j = 0; j < q; j++)
        for (int i = 0; i < p; i++)
            for (int c = 0; c < k; c++) R[size_t(j) * k + c] += X[size_t(i) * k + c] * op_at(A, m, n, t, i, j);
    return R;
}
template <typename T>
IntOp<T> op_from(const Cl &t, const Cl &s, const std::vector<T> &M) { // M in cluster numbering
    IntOp<T> g;
    g.m = t.get_size();
    g.n = s.get_size();
    g.k = 0;
    g.A.assign(M.size(), T(0));
    for (int j = 0; j < g.n; j++)
        for (int i = 0; i < g.m; i++) g.A[size_t(s.get_permutation()[j]) * g.m + t.get_permutation()[i]] = M[size_t(j) * g.m + i];
    return g;
}
inline HOpt fact_opt(Rng &r) {
    HOpt o = ropt(r);
    o.mode = r.chance(30) ? 0 : r.range(2, 3); // diagonal blocks are never compressed
    return o;
}

// Cholesky / LU
template <typename T>
void case_factor(Trace &tr, Rng &r) {
    int n  = pick_size(r);
    Cl t   = pick_tree(r, n);
    bool chol = imposed(forced().sym != 'N' || r.chance(10), r.chance(50));
    char content = chol ? (is_c<T>::value ? 'H' : 'S') : (r.chance(30) ? 'S' : 'N');
    HOpt o    = fact_opt(r);
    char uplo = r.chance(50) ? 'L' : 'U';
    if (imposed_sym()) uplo = forced().sym;
    if (chol && (imposed_sym() || (r.chance(50) && !forced().on))) {
        o.sym  = content;
        o.uplo = uplo;
    }
    errors().errors = 0;
    IntOp<T> g = int_op<T>(r, n, n, content, -1, 1, r.range(5, 40), true);
    if (!chol && r.chance(60)) { // rows exchanged inside the leaves of the tree: needs pivoting there
        Flat f = flatten(t);
        for (auto c : f.nodes)
            if (c->get_children().empty() && c->get_size() > 1)
                for (int k = 0; k < 2; k++) {
                    int a = t.get_permutation()[c->get_offset() + r.range(0, c->get_size() - 1)], b = t.get_permutation()[c->get_offset() + r.range(0, c->get_size() - 1)];
                    for (int j = 0; j < n; j++) std::swap(g.A[size_t(j) * n + a], g.A[size_t(j) * n + b]);
                    for (int l = 0; l < g.k; l++) std::swap(g.P[a + l * n], g.P[b + l * n]);
                }
    }
    HObj<T> A = build_h<T>(t, t, g, o);
    omp_set_num_threads(r.range(1, 4));
    int np = int(t.get_clusters_on_partition().size());
    if (np > 1 && r.chance(35)) { // the diagonal block of one part, on its own
        auto p   = t.get_clusters_on_partition()[r.range(0, np - 1)];
        auto sub = A.h->get_sub_hmatrix(*p, *p);
        if (!sub) return;
        A.h = std::make_shared<HMatrix<T>>(*sub);
    }
    int m = A.h->nb_rows();
    tr.begin_case();
    tr.put(Ev("case"));
    auto M0 = A.expected();
    let_h(tr, "A", A);
    int factorisations = r.range(1, 3) == 1 ? 2 : 1;
    (void)factorisations;
    errors().errors = 0;
    if (chol)
        cholesky_factorization(uplo, *A.h);
    else
        lu_factorization(*A.h);
    Ev e("factor");
    e.s("x", "A").s("how", chol ? std::string("CH") + uplo : "LU").i("err", errors().errors).raw("obs", "[]");
    tr.put(e);
    const Cl &c = A.h->get_target_cluster();
    bool usable = c.is_root() || (is_cluster_on_partition(c) && c.is_permutation_local());
    std::vector<int> loc(c.get_permutation().begin() + c.get_offset(), c.get_permutation().begin() + c.get_offset() + m);
    for (auto &v : loc) v -= c.get_offset();
    for (int rep = 0; rep < 4; rep++) {
        char tt = chol ? 'N' : rtrans(r);
        int mu  = r.some(1, 4);
        auto X0 = rvec<T>(r, m * mu, -2, 2);
        auto B  = op_mul(M0, m, m, tt, X0, mu);
        bool user = usable && r.chance(50);
        std::vector<T> Bu = B;
        if (user)
            for (int k = 0; k < mu; k++)
                for (int i = 0; i < m; i++) Bu[size_t(k) * m + loc[i]] = B[size_t(k) * m + i];
        Matrix<T> X = to_matrix(Bu, m, mu);
        errors().errors = 0;
        if (chol)
            user ? cholesky_solve(uplo, *A.h, X) : internal_cholesky_solve(uplo, *A.h, X);
        else
            user ? lu_solve(tt, *A.h, X) : internal_lu_solve(tt, *A.h, X);
        Ev s("solve");
        s.s("x", "A").c("t", tt).s("num", user ? "user" : "cluster").mat("B", Bu.data(), m, mu).mat("X", X.data(), m, mu).i("err", errors().errors);
        if (user) s.seq("pt", loc);
        tr.put(s);
    }
}

// triangular solves
template <typename T>
void case_trisolve(Trace &tr, Rng &r) {
    int n     = pick_size(r);
    Cl t      = pick_tree(r, n), s2 = pick_tree(r, pick_size(r));
    char side = r.chance(50) ? 'L' : 'R', uplo = r.chance(50) ? 'L' : 'U', ta = rtrans(r), diag = r.chance(50) ? 'U' : 'N';
    if (imposed_sym()) uplo = forced().sym;
    HOpt o    = fact_opt(r);
    errors().errors = 0;
    omp_set_num_threads(r.range(1, 4));
    // matrix in cluster numbering
    char content = imposed(imposed_sym(), r.chance(40)) ? (is_c<T>::value && r.chance(50) ? 'H' : 'S') : 'N';
    std::vector<T> M(size_t(n) * n, T(0)), P, Q;
    int density = r.range(2, 10), k = r.range(0, 2), cut = r.range(0, n);
    P = rvec<T>(r, n * k, -1, 1);
    Q = rvec<T>(r, n * k, -1, 1);
    for (int l = 0; l < k; l++) // a low-rank part strictly below (or above) the diagonal, where it does not feed back
        for (int i = 0; i < n; i++) {
            bool low = i >= cut;
            if (uplo == 'L' ? !low : low) P[size_t(l) * n + i] = T(0);
            if (uplo == 'L' ? low : !low) Q[size_t(l) * n + i] = T(0);
        }
    for (int j = 0; j < n; j++)
        for (int i = 0; i < n; i++) {
            for (int l = 0; l < k; l++) M[size_t(j) * n + i] += P[size_t(l) * n + i] * Q[size_t(l) * n + j];
            if (r.chance(density)) M[size_t(j) * n + i] += rnd<T>(r, -1, 1);
            if (i == j) M[size_t(j) * n + i] = T(r.chance(50) ? 1 : r.chance(50) ? -1 : 2);
            else if ((uplo == 'L') != (i > j) && r.chance(20)) M[size_t(j) * n + i] += rnd<T>(r, -3, 3); // the other triangle
        }
    if (content != 'N') {
        for (int j = 0; j < n; j++)
            for (int i = 0; i < j; i++) {
                T v                     = uplo == 'U' ? M[size_t(j) * n + i] : M[size_t(i) * n + j];
                M[size_t(j) * n + i]    = uplo == 'U' || content == 'S' ? v : cj(v);
                M[size_t(i) * n + j]    = uplo == 'L' || content == 'S' ? v : cj(v);
            }
        o.sym  = content;
        o.uplo = uplo;
    }
    IntOp<T> g = op_from<T>(t, t, M);
    if (content == 'N' && k > 0) {
        g.k = k;
        g.P.assign(size_t(n) * k, T(0));
        g.Q = g.P;
        for (int l = 0; l < k; l++)
            for (int i = 0; i < n; i++) {
                g.P[size_t(l) * n + t.get_permutation()[i]] = P[size_t(l) * n + i];
                g.Q[size_t(l) * n + t.get_permutation()[i]] = Q[size_t(l) * n + i];
            }
    }
    HObj<T> A = build_h<T>(t, t, g, o);
    tr.begin_case();
    tr.put(Ev("case"));
    let_h(tr, "A", A);
    auto nodes = all_nodes(*A.h);
    std::vector<const HMatrix<T> *> diagnodes;
    for (auto b : nodes)
        if (b->get_target_cluster() == b->get_source_cluster() && (b == A.h.get() || b->get_target_cluster().get_rank() >= 0)) diagnodes.push_back(b); // levels above the partition are never addressed on their own
    for (int rep = 0; rep < 4; rep++) {
        const HMatrix<T> *b = r.chance(60) ? A.h.get() : diagnodes[r.range(0, int(diagnodes.size()) - 1)];
        int p = b->nb_rows(), off = b->get_target_cluster().get_offset();
        std::vector<T> D(size_t(p) * p, T(0)); // the triangle addressed
        for (int j = 0; j < p; j++)
            for (int i = 0; i < p; i++)
                if (i == j)
                    D[size_t(j) * p + i] = diag == 'U' ? T(1) : M[size_t(off + j) * n + off + i];
                else if ((uplo == 'L') == (i > j))
                    D[size_t(j) * p + i] = M[size_t(off + j) * n + off + i];
        T alpha = r.chance(50) ? T(1) : rscal<T>(r);
        auto rhs = [&](const std::vector<T> &X, int mu) { return side == 'L' ? op_mul(D, p, p, ta, X, mu) : mul_op(X, mu, D, p, p, ta); };
        std::string ar = href<T>("A", *A.h, *b);
        Ev e("trisolve");
        auto common = [&](const char *f, const std::string &xr, const Obs &ob) {
            e.s("f", f).c("side", side).c("uplo", uplo).c("ta", ta).c("diag", diag).scal("alpha", alpha).raw("A", ar).raw("X", xr).raw("obs", ob.str()).i("err", errors().errors);
            tr.put(e);
        };
        int kind = r.range(0, 5);
        errors().errors = 0;
        if (kind <= 1) { // dense right-hand side
            int mu  = r.some(1, 5);
            auto X  = rhs(rvec<T>(r, p * mu, -2, 2), mu);
            int xr = side == 'L' ? p : mu, xc = side == 'L' ? mu : p;
            let_m(tr, "X", X.data(), xr, xc);
            Matrix<T> B = to_matrix(X, xr, xc);
            if (kind == 0 || side == 'R') {
                internal_triangular_hmatrix_matrix_solve(side, uplo, ta, diag, alpha, *b, B);
                common("dense", ref("X"), Obs().m("X", B).h("A", *A.h));
            } else {
                Matrix<T> Bt(xc, xr);
                for (int i = 0; i < xr; i++)
                    for (int j = 0; j < xc; j++) Bt(j, i) = B(i, j);
                internal_triangular_hmatrix_matrix_solve_row_major(side, uplo, ta, diag, alpha, *b, Bt);
                for (int i = 0; i < xr; i++)
                    for (int j = 0; j < xc; j++) B(i, j) = Bt(j, i);
                common("rows", ref("X"), Obs().m("X", B).h("A", *A.h));
            }
        } else if (kind == 2) { // low-rank right-hand side
            int q = r.range(1, 9), k2 = r.range(0, 3);
            LowRankMatrix<T> L = side == 'L' ? make_lr<T>(r, p, q, k2, EXACT) : make_lr<T>(r, q, p, k2, EXACT);
            auto &F            = side == 'L' ? L.get_U() : L.get_V();
            auto X             = rhs(std::vector<T>(F.data(), F.data() + size_t(p) * k2), k2);
            std::copy(X.begin(), X.end(), F.data());
            int xr = side == 'L' ? p : q, xc = side == 'L' ? q : p;
            let_l(tr, "X", L, xr, xc);
            internal_triangular_hmatrix_lrmat_solve(side, uplo, ta, diag, alpha, *b, L);
            common("lrmat", ref("X"), Obs().l("X", L, xr, xc).h("A", *A.h));
        } else { // hierarchical right-hand side, possibly one of its blocks
            const Cl &s = r.chance(50) ? t : s2;
            const Cl &bt = side == 'L' ? t : s, &bs = side == 'L' ? s : t;
            HOpt o2 = fact_opt(r);
            std::vector<T> Z(size_t(bt.get_size()) * bs.get_size(), T(0));
            HObj<T> B0 = build_h<T>(bt, bs, op_from<T>(bt, bs, Z), o2);
            std::vector<const HMatrix<T> *> cand;
            for (auto x : all_nodes(*B0.h))
                if ((side == 'L' ? x->get_target_cluster() : x->get_source_cluster()) == b->get_target_cluster()) cand.push_back(x);
            if (cand.empty()) continue;
            const HMatrix<T> *x = cand[r.range(0, int(cand.size()) - 1)];
            if (b == A.h.get()) x = B0.h.get();
            int r0 = x->get_target_cluster().get_offset(), nr = x->nb_rows(), c0 = x->get_source_cluster().get_offset(), nc = x->nb_cols(), bm = bt.get_size();
            int mu  = side == 'L' ? nc : nr;
            for (auto &v : Z) v = rnd<T>(r, -2, 2);
            auto X0 = rvec<T>(r, p * mu, -1, 1);
            if (r.chance(50)) // rank-one solution
                for (int i = 0; i < p; i++)
                    for (int j = 0; j < mu; j++) {
                        T v = X0[i] * X0[(7 * j) % X0.size()];
                        X0[side == 'L' ? size_t(j) * p + i : size_t(i) * mu + j] = v;
                    }
            auto Y  = rhs(X0, mu);
            for (int j = 0; j < nc; j++)
                for (int i = 0; i < nr; i++) Z[size_t(c0 + j) * bm + r0 + i] = Y[size_t(j) * nr + i];
            HObj<T> B = build_h<T>(bt, bs, op_from<T>(bt, bs, Z), o2);
            auto xx   = B.h->get_sub_hmatrix(x->get_target_cluster(), x->get_source_cluster());
            if (!xx) continue;
            let_h(tr, "X", B);
            errors().errors = 0;
            std::string xr = href<T>("X", *B.h, *xx);
            internal_triangular_hmatrix_hmatrix_solve(side, uplo, ta, diag, alpha, *b, *xx);
            common("hmat", xr, Obs().h("X", *B.h).h("A", *A.h));
        }
    }
}

int main(int argc, char **argv) {
    std::string suite = arg(argc, argv, "--suite", "H06");
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 10), shards = argi(argc, argv, "--shards", 1);
    Trace tr(arg(argc, argv, "--out", "/tmp/trace"), int(shards));
    errors();
    Rng r(uint64_t(seed) * 977 + std::hash<std::string>()(suite));
    auto one = [&] {
        Rng rc(r.next());
        bool cplx = rc.chance(50);
        if (suite == "H06") cplx ? case_factor<cd>(tr, rc) : case_factor<double>(tr, rc);
        if (suite == "H07") cplx ? case_trisolve<cd>(tr, rc) : case_trisolve<double>(tr, rc);
    };
    for (long c = 0; c < cases; c++) one();
    replay_structures(arg(argc, argv, "--hist", ""), one);
    return 0;
}
