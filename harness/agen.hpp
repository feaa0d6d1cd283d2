// Objects of the algebra drivers: hierarchical / low-rank / dense matrices with integer content.
#ifndef VERIF_AGEN_HPP
#define VERIF_AGEN_HPP
#include "hgen.hpp"
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/hmatrix/linalg/scale.hpp>
#include <htool/hmatrix/linalg/add_lrmat_hmatrix.hpp>
#include <htool/hmatrix/lrmat/linalg/interface.hpp>
#include <htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <omp.h>

namespace vf {
using htool::HMatrix;
using htool::LowRankMatrix;
using htool::Matrix;

// Independent walk over the structure: the matrix an H-matrix stands for, cluster numbering.
template <typename T>
void fill_dense(const HMatrix<T> &h, char sym, int r0, int c0, int m, std::vector<T> &v) {
    char s = h.get_symmetry() != 'N' ? h.get_symmetry() : sym;
    if (!h.is_leaf()) {
        for (auto &c : h.get_children()) fill_dense<T>(*c, s, r0, c0, m, v);
        return;
    }
    auto b  = leaf_content<T>(h);
    int ro  = h.get_target_cluster().get_offset(), nr = h.get_target_cluster().get_size(), co = h.get_source_cluster().get_offset(), nc = h.get_source_cluster().get_size();
    bool on = ro == co && nr == nc;
    for (int j = 0; j < nc; j++)
        for (int i = 0; i < nr; i++) {
            T x = b[size_t(j) * nr + i];
            if (on && s != 'N') { // only one triangle counts
                bool stored = h.get_UPLO() == 'U' ? i <= j : i >= j;
                if (!stored) {
                    x = b[size_t(i) * nr + j];
                    if (s == 'H') x = cj(x);
                } else if (s == 'H' && i == j)
                    x = T(re(x));
            }
            v[size_t(co + j - c0) * m + (ro + i - r0)] = x;
            if (!on && s != 'N') {
                T y                                            = s == 'H' ? cj(x) : x;
                long pi = co + j - r0, pj = ro + i - c0;
                if (pi >= 0 && pi < m && pj >= 0 && size_t(pj) * m + pi < v.size())
                    v[size_t(pj) * m + pi] = y;
            }
        }
}
template <typename T>
std::vector<T> full_dense(const HMatrix<T> &h) {
    std::vector<T> v(size_t(h.nb_rows()) * h.nb_cols(), T(0));
    fill_dense<T>(h, 'N', h.get_target_cluster().get_offset(), h.get_source_cluster().get_offset(), h.nb_rows(), v);
    return v;
}
template <typename T>
std::string layout(const HMatrix<T> &h) {
    std::vector<std::vector<int>> l;
    std::vector<const HMatrix<T> *> st{&h};
    while (!st.empty()) {
        auto n = st.back();
        st.pop_back();
        if (n->is_leaf())
            l.push_back({n->get_target_cluster().get_offset(), n->get_target_cluster().get_size(), n->get_source_cluster().get_offset(), n->get_source_cluster().get_size(), n->is_dense() ? 1 : n->is_low_rank() ? 2 : 3});
        for (auto &c : n->get_children()) st.push_back(c.get());
    }
    std::sort(l.begin(), l.end());
    return jseq(l);
}

struct HOpt {
    char sym = 'N', uplo = 'N';
    int tp = -1, sp = -1, mint = 0, mins = 0, mode = 2, percent = 60, refuse = 15, eta2 = 4;
    double eps = EXACT;
    bool cons = true, always_full = false;
    unsigned salt = 0;
    int force     = -1;
};
inline HOpt ropt(Rng &r) {
    HOpt o;
    o.mode    = r.range(0, 3);
    o.percent = r.range(30, 90);
    o.refuse  = r.chance(50) ? 0 : r.range(5, 40);
    o.salt    = unsigned(r.next());
    o.eta2    = r.range(2, 20);
    return o;
}
template <typename T>
struct HObj {
    std::shared_ptr<HMatrix<T>> h;
    IntOp<T> g;
    const Cl *t = nullptr, *s = nullptr;
    HOpt o;
    // expected content in cluster numbering
    std::vector<T> expected() const {
        int r0 = h->get_target_cluster().get_offset(), m = h->nb_rows(), c0 = h->get_source_cluster().get_offset(), n = h->nb_cols();
        std::vector<T> v(size_t(m) * n);
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) v[size_t(j) * m + i] = g(t->get_permutation()[r0 + i], s->get_permutation()[c0 + j]);
        return v;
    }
};
template <typename T>
HObj<T> build_h(const Cl &t, const Cl &s, const IntOp<T> &g, const HOpt &o) {
    HObj<T> x;
    x.g = g;
    x.t = &t;
    x.s = &s;
    x.o = o;
    htool::HMatrixTreeBuilder<T, double> b(t, s, o.eps, o.eta2 / 2., o.sym, o.uplo, -1, o.tp, o.sp);
    auto comp         = std::make_shared<ExactCompressor<T>>(x.g, t, s, o.salt, o.refuse);
    comp->always_full = o.always_full;
    int mode          = o.mode;
    if (forced().on && t.get_size() == forced().n && s.get_size() == forced().n && o.cons) {
        unsigned k  = o.force >= 0 ? unsigned(o.force) : o.salt / 7 % 8; // mostly the imposed structure, also on its mirror, sometimes something else
        comp->force = k < 5 ? 1 : k < 7 ? 2 : 0;
        if (comp->force) mode = comp->force + 4;
    }
    b.set_low_rank_generator(comp);
    b.set_admissibility_condition(std::make_shared<Admis>(mode, o.salt, o.percent, true));
    b.set_minimal_target_depth(o.mint);
    b.set_minimal_source_depth(o.mins);
    b.set_block_tree_consistency(o.cons);
    ClusterGen<T> cg(x.g, t, s);
    x.h = std::make_shared<HMatrix<T>>(b.build(static_cast<const htool::VirtualInternalGenerator<T> &>(cg)));
    return x;
}
template <typename T>
Matrix<T> to_matrix(const std::vector<T> &v, int m, int n) {
    Matrix<T> M(m, n);
    std::copy(v.begin(), v.end(), M.data());
    return M;
}
template <typename T>
LowRankMatrix<T> make_lr(Rng &r, int m, int n, int k, double eps, int lo = -2, int hi = 2) {
    LowRankMatrix<T> L(eps);
    L.get_U().resize(m, k);
    L.get_V().resize(k, n);
    for (int l = 0; l < k; l++) {
        for (int i = 0; i < m; i++) L.get_U()(i, l) = rnd<T>(r, lo, hi);
        for (int j = 0; j < n; j++) L.get_V()(l, j) = rnd<T>(r, lo, hi);
    }
    return L;
}
template <typename T>
std::vector<T> lr_dense(const LowRankMatrix<T> &L, int m, int n) {
    std::vector<T> v(size_t(m) * n, T(0));
    int k = L.rank_of();
    if (L.get_U().nb_rows() == m && L.get_V().nb_cols() == n && L.get_V().nb_rows() == k)
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++)
                for (int l = 0; l < k; l++) v[size_t(j) * m + i] += L.get_U(i, l) * L.get_V(l, j);
    return v;
}

// Observations
struct Obs {
    std::string s = "[";
    template <typename T>
    Obs &d(const std::string &name, const T *p, int m, int n) {
        s += std::string(s.size() > 1 ? "," : "") + "{\"o\":\"" + name + "\",\"M\":" + jmat(p, m, n) + "}";
        return *this;
    }
    template <typename T>
    Obs &m(const std::string &name, const Matrix<T> &M) { return d(name, M.data(), M.nb_rows(), M.nb_cols()); }
    template <typename T>
    Obs &h(const std::string &name, const HMatrix<T> &H, bool lay = true) {
        auto v = full_dense<T>(H);
        s += std::string(s.size() > 1 ? "," : "") + "{\"o\":\"" + name + "\",\"M\":" + jmat(v.data(), H.nb_rows(), H.nb_cols()) + (lay ? ",\"lay\":" + layout<T>(H) : std::string()) + "}";
        return *this;
    }
    template <typename T>
    Obs &l(const std::string &name, const LowRankMatrix<T> &L, int m, int n) {
        auto v = lr_dense<T>(L, m, n);
        // a rank-0 matrix whose factors were never sized stands for zero
        int um = L.get_U().nb_rows(), un = L.get_U().nb_cols(), vm = L.get_V().nb_rows(), vn = L.get_V().nb_cols();
        if (un == 0 && vm == 0 && um == 0 && vn == 0) um = m, vn = n;
        s += std::string(s.size() > 1 ? "," : "") + "{\"o\":\"" + name + "\",\"M\":" + jmat(v.data(), m, n) + ",\"rk\":[" + std::to_string(um) + "," + std::to_string(un) + "," + std::to_string(vm) + "," + std::to_string(vn) + "]}";
        return *this;
    }
    std::string str() const { return s + "]"; }
};
inline std::string ref(const std::string &o, int r0 = 0, int nr = -1, int c0 = 0, int nc = -1) {
    return "{\"o\":\"" + o + "\",\"r0\":" + std::to_string(r0) + ",\"nr\":" + std::to_string(nr) + ",\"c0\":" + std::to_string(c0) + ",\"nc\":" + std::to_string(nc) + "}";
}
template <typename T>
Ev let(const std::string &x, const T *p, int m, int n, const Obs &o) {
    Ev e("let");
    e.s("x", x).mat("M", p, m, n).raw("obs", o.str());
    return e;
}
template <typename T>
void let_h(Trace &tr, const std::string &x, const HObj<T> &A) {
    Ev e("let");
    auto v = A.expected();
    e.s("x", x).mat("M", v.data(), A.h->nb_rows(), A.h->nb_cols()).raw("lay", layout<T>(*A.h)).raw("obs", Obs().h(x, *A.h).str());
    e.c("sym", A.o.sym).c("uplo", A.o.uplo);
    if (A.h->get_target_cluster().is_root()) e.seq("pt", A.t->get_permutation());
    if (A.h->get_source_cluster().is_root()) e.seq("ps", A.s->get_permutation());
    tr.put(e);
}
template <typename T>
void let_m(Trace &tr, const std::string &x, const T *p, int m, int n) { tr.put(let(x, p, m, n, Obs())); }
template <typename T>
void let_l(Trace &tr, const std::string &x, const LowRankMatrix<T> &L, int m, int n) {
    auto v = lr_dense<T>(L, m, n);
    tr.put(let(x, v.data(), m, n, Obs().l(x, L, m, n)));
}
template <typename T>
Ev mul(const std::string &f, const std::string &A, char ta, const std::string &B, char tb, T alpha, T beta, const std::string &C, const Obs &o, int err, const char *op = "mul") {
    Ev e(op);
    e.s("f", f).raw("A", A).c("ta", ta).raw("B", B).c("tb", tb).scal("alpha", alpha).scal("beta", beta).raw("C", C).raw("obs", o.str()).i("err", err);
    return e;
}
inline char rtrans(Rng &r) { return "NTC"[r.range(0, 2)]; }
inline int pick_size(Rng &r) { return forced().on ? forced().n : r.chance(15) ? r.range(1, 6) : r.chance(95) ? r.range(7, 34) : r.range(35, 80); }
inline Cl pick_tree(Rng &r, int n, int maxparts = 4, bool local_ok = true) {
    if (forced().on && n == forced().n) {
        htool::ClusterTreeBuilder<double> b;
        b.set_splitting_strategy(std::make_shared<ForcedSplitting>());
        std::vector<double> x = points(r, n, 2, 0, 10);
        return b.create_cluster_tree(n, 2, x.data(), forced().nch, 1);
    }
    int parts = n < 8 ? 1 : r.chance(92) ? r.range(1, maxparts) : r.range(maxparts + 1, maxparts + 4);
    return good_tree(r, n, r.range(1, 3), r.range(1, 6), r.chance(85) ? r.range(2, 3) : r.range(4, 6), parts, parts > 1 && local_ok && r.chance(40), r.range(0, 7));
}
template <typename T>
std::vector<const HMatrix<T> *> all_nodes(const HMatrix<T> &h) {
    std::vector<const HMatrix<T> *> v{&h};
    for (size_t k = 0; k < v.size(); k++)
        for (auto &c : v[k]->get_children()) v.push_back(c.get());
    return v;
}
// does the block lie under a symmetric diagonal block?
template <typename T>
std::string href(const std::string &o, const HMatrix<T> &root, const HMatrix<T> &b) {
    if (&root == &b) return ref(o);
    return ref(o, b.get_target_cluster().get_offset() - root.get_target_cluster().get_offset(), b.nb_rows(), b.get_source_cluster().get_offset() - root.get_source_cluster().get_offset(), b.nb_cols());
}
} // namespace vf
#endif
