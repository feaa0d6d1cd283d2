// Dense products, factorisations and triangular solves (M01, M02).
#include "agen.hpp"
#include <htool/matrix/linalg/factorization.hpp>
#include <htool/matrix/linalg/transpose.hpp>
using namespace vf;
using namespace htool;

// storage of a one-triangle matrix: the unused triangle holds values that must not be read
template <typename T>
void poison(Matrix<T> &A, char uplo, Rng &r, bool diag = false) {
    double nan = r.chance(50) ? std::numeric_limits<double>::quiet_NaN() : 1e300;
    for (int j = 0; j < A.nb_cols(); j++)
        for (int i = 0; i < A.nb_rows(); i++)
            if ((uplo == 'L' ? i < j : i > j) || (diag && i == j)) A(i, j) = T(nan);
}
template <typename T>
std::vector<T> mirror(const Matrix<T> &A, char uplo, char sym) {
    int n = A.nb_rows();
    std::vector<T> v(size_t(n) * n);
    for (int j = 0; j < n; j++)
        for (int i = 0; i < n; i++) {
            bool st               = uplo == 'L' ? i >= j : i <= j;
            T x                   = st ? A(i, j) : sym == 'H' ? cj(A(j, i)) : A(j, i);
            v[size_t(j) * n + i] = sym == 'H' && i == j ? T(re(x)) : x;
        }
    return v;
}
template <typename T>
std::vector<T> tri_of(const Matrix<T> &A, char uplo, char diag) {
    int n = A.nb_rows();
    std::vector<T> v(size_t(n) * n, T(0));
    for (int j = 0; j < n; j++)
        for (int i = 0; i < n; i++)
            if (i == j)
                v[size_t(j) * n + i] = diag == 'U' ? T(1) : A(i, j);
            else if (uplo == 'L' ? i > j : i < j)
                v[size_t(j) * n + i] = A(i, j);
    return v;
}
template <typename T>
std::vector<T> flip(const T *p, int m, int n) { // m x n by columns -> by rows
    std::vector<T> v(size_t(m) * n);
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) v[size_t(i) * n + j] = p[size_t(j) * m + i];
    return v;
}
// the product with a Hermitian matrix from either side exists over the complex field only
inline void herm(char side, char uplo, double al, const Matrix<double> &S, const Matrix<double> &X, double be, Matrix<double> &Y) { add_symmetric_matrix_matrix_product(side, uplo, al, S, X, be, Y); }
inline void herm(char side, char uplo, cd al, const Matrix<cd> &S, const Matrix<cd> &X, cd be, Matrix<cd> &Y) { add_hermitian_matrix_matrix_product(side, uplo, al, S, X, be, Y); }
inline int dim(Rng &r) { return r.chance(12) ? 0 : r.chance(20) ? 1 : r.chance(96) ? r.range(2, 9) : r.range(10, 40); }

template <typename T>
void products(Trace &tr, Rng &r) {
    tr.put(Ev("case"));
    char ta = rtrans(r), tb = rtrans(r);
    int m = dim(r), k = dim(r), n = dim(r), kind = r.range(0, 11);
    T al = rscal<T>(r), be = rscal<T>(r);
    auto mat = [&](int p, int q) { return to_matrix(rvec<T>(r, p * q), p, q); };
    auto done = [&](const char *f, char a, char b, const std::string &A, const std::string &B, const std::string &C, const Obs &o) {
        tr.put(mul<T>(f, A, a, B, b, al, be, C, o, errors().errors));
    };
    errors().errors = 0;
    auto A = ta == 'N' ? mat(m, k) : mat(k, m), B = tb == 'N' ? mat(k, n) : mat(n, k), C = mat(m, n);
    if (kind <= 1) { // vector
        auto X = mat(k, 1), Y = mat(m, 1);
        let_m(tr, "A", A.data(), A.nb_rows(), A.nb_cols());
        let_m(tr, "B", X.data(), k, 1);
        let_m(tr, "C", Y.data(), m, 1);
        add_matrix_vector_product(ta, al, A, X.data(), be, Y.data());
        done("matrix-vector", ta, 'N', ref("A"), ref("B"), ref("C"), Obs().m("A", A).m("B", X).m("C", Y));
    } else if (kind <= 3) { // general
        let_m(tr, "A", A.data(), A.nb_rows(), A.nb_cols());
        let_m(tr, "B", B.data(), B.nb_rows(), B.nb_cols());
        let_m(tr, "C", C.data(), m, n);
        add_matrix_matrix_product(ta, tb, al, A, B, be, C);
        done("matrix-matrix", ta, tb, ref("A"), ref("B"), ref("C"), Obs().m("A", A).m("B", B).m("C", C));
    } else if (kind <= 5) { // general, by rows
        auto b = flip(B.data(), B.nb_rows(), B.nb_cols()), c = flip(C.data(), m, n);
        let_m(tr, "A", A.data(), A.nb_rows(), A.nb_cols());
        let_m(tr, "B", B.data(), B.nb_rows(), B.nb_cols());
        let_m(tr, "C", C.data(), m, n);
        add_matrix_matrix_product_row_major(ta, tb, al, A, b.data(), be, c.data(), n);
        auto bb = flip(b.data(), B.nb_cols(), B.nb_rows()), cc = flip(c.data(), n, m);
        done("matrix-matrix by rows", ta, tb, ref("A"), ref("B"), ref("C"), Obs().m("A", A).d("B", bb.data(), B.nb_rows(), B.nb_cols()).d("C", cc.data(), m, n));
    } else if (kind <= 9) { // one triangle
        char sym = r.chance(50) ? 'S' : 'H', uplo = r.chance(50) ? 'L' : 'U', side = r.chance(50) ? 'L' : 'R';
        int p = m;
        auto S = mat(p, p);
        if (sym == 'H')
            for (int i = 0; i < p; i++) S(i, i) = T(re(S(i, i)));
        poison(S, uplo, r);
        auto full = mirror(S, uplo, sym);
        let_m(tr, "A", full.data(), p, p);
        int nb = kind == 6 ? 1 : n;
        if (kind == 6) side = 'L';
        auto X = side == 'L' ? mat(p, nb) : mat(nb, p), Y = side == 'L' ? mat(p, nb) : mat(nb, p);
        let_m(tr, "B", X.data(), X.nb_rows(), X.nb_cols());
        let_m(tr, "C", Y.data(), Y.nb_rows(), Y.nb_cols());
        bool rows = kind >= 8;
        auto x = flip(X.data(), X.nb_rows(), X.nb_cols()), y = flip(Y.data(), Y.nb_rows(), Y.nb_cols());
        if (kind == 6) {
            if (sym == 'S')
                add_symmetric_matrix_vector_product(uplo, al, S, X.data(), be, Y.data());
            else
                add_hermitian_matrix_vector_product(uplo, al, S, X.data(), be, Y.data());
        } else if (kind == 7) {
            if (sym == 'S')
                add_symmetric_matrix_matrix_product(side, uplo, al, S, X, be, Y);
            else
                herm(side, uplo, al, S, X, be, Y);
        } else {
            if (sym == 'S')
                add_symmetric_matrix_matrix_product_row_major(side, uplo, al, S, x.data(), be, y.data(), nb);
            else
                add_hermitian_matrix_matrix_product_row_major(side, uplo, al, S, x.data(), be, y.data(), nb);
        }
        if (rows) {
            auto xx = flip(x.data(), X.nb_cols(), X.nb_rows()), yy = flip(y.data(), Y.nb_cols(), Y.nb_rows());
            std::copy(xx.begin(), xx.end(), X.data());
            std::copy(yy.begin(), yy.end(), Y.data());
        }
        auto after = mirror(S, uplo, sym);
        std::string what = std::string(sym == 'S' ? "symmetric" : "Hermitian") + (kind == 6 ? " vector" : rows ? " by rows" : " matrix") + (side == 'L' ? ", left" : ", right");
        Obs o;
        o.d("A", after.data(), p, p).m("B", X).m("C", Y);
        if (side == 'L')
            done(what.c_str(), 'N', 'N', ref("A"), ref("B"), ref("C"), o);
        else
            done(what.c_str(), 'N', 'N', ref("B"), ref("A"), ref("C"), o);
    } else if (kind == 10) {
        let_m(tr, "X", A.data(), A.nb_rows(), A.nb_cols());
        scale(al, A);
        tr.put(Ev("scale").raw("X", vf::ref("X")).scal("alpha", al).raw("obs", Obs().m("X", A).str()).i("err", errors().errors));
    } else {
        auto D = mat(A.nb_cols(), A.nb_rows());
        let_m(tr, "X", A.data(), A.nb_rows(), A.nb_cols());
        let_m(tr, "Y", D.data(), D.nb_rows(), D.nb_cols());
        transpose(A, D);
        tr.put(Ev("transpose").raw("X", vf::ref("X")).raw("Y", vf::ref("Y")).raw("obs", Obs().m("X", A).m("Y", D).str()).i("err", errors().errors));
    }
}
// well conditioned: a permuted product of unit triangular integer factors
template <typename T>
Matrix<T> regular(Rng &r, int n) {
    Matrix<T> L(n, n), U(n, n), A(n, n);
    for (int i = 0; i < n; i++) {
        L(i, i) = T(1);
        U(i, i) = mk<T>(r.chance(50) ? 1 : -1, 0);
        for (int j = 0; j < i; j++)
            if (r.chance(45)) L(i, j) = rnd<T>(r, -1, 1);
        for (int j = i + 1; j < n; j++)
            if (r.chance(45)) U(i, j) = rnd<T>(r, -1, 1);
    }
    std::vector<int> p(static_cast<size_t>(n));
    for (int i = 0; i < n; i++) p[i] = i;
    if (r.chance(75))
        for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.range(0, i)]);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            for (int l = 0; l < n; l++) A(p[i], j) += L(i, l) * U(l, j);
    return A;
}
template <typename T>
Matrix<T> spd(Rng &r, int n) {
    Matrix<T> L(n, n), A(n, n);
    for (int i = 0; i < n; i++) {
        L(i, i) = T(r.range(1, 2));
        for (int j = 0; j < i; j++)
            if (r.chance(60)) L(i, j) = rnd<T>(r, -1, 1);
    }
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            for (int l = 0; l < n; l++) A(i, j) += L(i, l) * cj(L(j, l));
    return A;
}
template <typename T>
Matrix<T> times(char t, const Matrix<T> &A, const Matrix<T> &X) {
    int m = t == 'N' ? A.nb_rows() : A.nb_cols(), k = X.nb_rows();
    Matrix<T> R(m, X.nb_cols());
    for (int i = 0; i < m; i++)
        for (int j = 0; j < X.nb_cols(); j++)
            for (int l = 0; l < k; l++) R(i, j) += (t == 'N' ? A(i, l) : t == 'T' ? A(l, i) : cj(A(l, i))) * X(l, j);
    return R;
}
template <typename T>
Matrix<T> flipm(const Matrix<T> &A, bool conj = false) {
    Matrix<T> R(A.nb_cols(), A.nb_rows());
    for (int i = 0; i < A.nb_rows(); i++)
        for (int j = 0; j < A.nb_cols(); j++) R(j, i) = conj ? cj(A(i, j)) : A(i, j);
    return R;
}
template <typename T>
void solves(Trace &tr, Rng &r) {
    tr.put(Ev("case"));
    int n = r.chance(15) ? 1 : r.range(2, 7);
    Matrix<T> A;
    // one object that is factorised, overwritten and used again
    int rounds = r.range(1, 3);
    for (int round = 0; round < rounds; round++) {
        errors().errors = 0;
        bool chol       = r.chance(30), plain = !chol && r.chance(45);
        if (round > 0 && r.chance(50)) n = r.chance(70) ? n : r.range(1, 7);
        Matrix<T> F = chol ? spd<T>(r, n) : regular<T>(r, n), orig = F;
        char uplo = r.chance(50) ? 'L' : 'U', diag = r.chance(50) ? 'U' : 'N';
        std::vector<T> content(F.data(), F.data() + size_t(n) * n);
        if (plain) {
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++) F(i, j) = i == j ? mk<T>(r.chance(50) ? 1 : -1, 0) : r.chance(60) ? rnd<T>(r, -1, 1) : T(0);
            poison(F, uplo, r, diag == 'U');
            content = tri_of(F, uplo, diag);
        } else if (chol)
            poison(F, uplo, r);
        // put the new content into the object
        int way = round == 0 ? r.range(0, 2) : r.range(0, 4);
        if (way == 0)
            A = F;
        else if (way == 1)
            A = Matrix<T>(F);
        else if (way == 2 || A.nb_rows() != n) {
            A.resize(n, n);
            for (int j = 0; j < n; j++) A.set_col(j, F.get_col(j));
        } else if (way == 3) {
            T *p = new T[size_t(n) * n];
            std::copy_n(F.data(), size_t(n) * n, p);
            A.assign(n, n, p, true);
        } else { // overwritten as a whole
            A = T(0);
            for (int j = 0; j < n; j++) A.set_col(j, F.get_col(j));
        }
        let_m(tr, "A", content.data(), n, n);
        std::string how = chol ? (uplo == 'L' ? "CHL" : "CHU") : "LU";
        if (plain) {
            for (int rep = 0; rep < 2; rep++) {
                char side = r.chance(50) ? 'L' : 'R', t = rtrans(r);
                int nb = r.some(0, 4);
                T al   = r.chance(30) ? T(0) : r.chance(50) ? T(1) : rnd<T>(r, -2, 2);
                auto X = side == 'L' ? to_matrix(rvec<T>(r, n * nb), n, nb) : to_matrix(rvec<T>(r, n * nb), nb, n);
                let_m(tr, "X", X.data(), X.nb_rows(), X.nb_cols());
                triangular_matrix_matrix_solve(side, uplo, t, diag, al, A, X);
                auto now = tri_of(A, uplo, diag);
                tr.put(Ev("trisolve").raw("A", vf::ref("A")).raw("X", vf::ref("X")).c("side", side).c("uplo", uplo).c("ta", t).c("diag", diag).scal("alpha", al).raw("obs", Obs().d("A", now.data(), n, n).m("X", X).str()).i("err", errors().errors));
            }
            continue;
        }
        if (chol)
            cholesky_factorization(uplo, A);
        else
            lu_factorization(A);
        tr.put(Ev("factor").s("x", "A").s("how", how).raw("obs", Obs().str()).i("err", errors().errors));
        // copies and assignments carry the factors along
        if (r.chance(40)) {
            Matrix<T> K(r.chance(50) ? A.nb_rows() : r.range(0, 5), r.chance(50) ? A.nb_cols() : r.range(0, 5)), other = to_matrix(rvec<T>(r, 9), 3, 3);
            int way = r.range(0, 3);
            if (way == 0) K = A;
            else if (way == 1) K = std::move(A);
            else if (way == 2) { Matrix<T> C(A); K = std::move(C); }
            else { Matrix<T> C(std::move(A)); K = C; }
            if (r.chance(30)) other = K, K = T(0), K = other;
            A = r.chance(50) ? K : Matrix<T>(K);
        }
        for (int rep = 0; rep < 3; rep++) {
            int nb     = r.some(0, 4);
            char t     = rtrans(r), side = r.chance(60) ? 'L' : 'R';
            bool steps = r.chance(60);
            if (!steps) side = 'L';
            auto X = to_matrix(rvec<T>(r, n * nb), n, nb);
            // op(A) X = B, or transposed: X^T op(A) = B^T
            auto B  = side == 'L' ? times(t, orig, X) : flipm(times(t == 'N' ? 'T' : 'N', t == 'C' ? to_matrix([&] { std::vector<T> v(orig.data(), orig.data() + size_t(n) * n); for (auto &z : v) z = cj(z); return v; }(), n, n) : orig, X));
            auto Y  = B;
            T al    = T(1);
            if (!steps) {
                if (chol)
                    cholesky_solve(uplo, A, Y), t = 'N', B = times('N', orig, X), Y = B, cholesky_solve(uplo, A, Y);
                else
                    lu_solve(t, A, Y);
            } else if (chol) {
                t = 'N';
                B = side == 'L' ? times('N', orig, X) : flipm(times('T', orig, X));
                Y = B;
                // A = L L^H or U^H U
                char first = uplo == 'L' ? 'N' : 'C', second = uplo == 'L' ? 'C' : 'N';
                if (side == 'R') std::swap(first, second);
                triangular_matrix_matrix_solve(side, uplo, first, 'N', al, A, Y);
                triangular_matrix_matrix_solve(side, uplo, second, 'N', al, A, Y);
            } else {
                // A = P L U
                bool lower = (side == 'L') == (t == 'N');
                triangular_matrix_matrix_solve(side, lower ? 'L' : 'U', t, lower ? 'U' : 'N', al, A, Y);
                triangular_matrix_matrix_solve(side, lower ? 'U' : 'L', t, lower ? 'N' : 'U', al, A, Y);
            }
            tr.put(Ev("solve").s("x", "A").c("t", t).s("num", "cluster").s("side", std::string(1, side)).b("steps", steps).raw("B", jmat(B.data(), B.nb_rows(), B.nb_cols())).raw("X", jmat(Y.data(), Y.nb_rows(), Y.nb_cols())).i("err", errors().errors));
        }
    }
}
int main(int argc, char **argv) {
    std::string suite = arg(argc, argv, "--suite", "M01"), out = arg(argc, argv, "--out", "/tmp/trace");
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 20), shards = argi(argc, argv, "--shards", 1);
    errors();
    Trace tr(out, int(shards));
    for (int c = 0; c < cases; c++) {
        Rng r(uint64_t(seed) * 1000003 + uint64_t(c) + 777);
        tr.begin_case();
        if (suite == "M01") {
            if (c % 2) products<double>(tr, r); else products<cd>(tr, r);
        } else {
            if (c % 2) solves<double>(tr, r); else solves<cd>(tr, r);
        }
    }
    return 0;
}
