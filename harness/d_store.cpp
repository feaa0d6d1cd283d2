// Replays histories of the object store (MCStore) on real hierarchical matrices (H08).
#include "agen.hpp"
#include <htool/hmatrix/hmatrix_output.hpp>
#include <htool/hmatrix/linalg/factorization.hpp>
using namespace vf;
using namespace htool;

template <typename T>
bool well_conditioned(std::vector<T> A, int n, bool chol) { // elimination without exchanges keeps away from zero
    for (int k = 0; k < n; k++) {
        T p = A[size_t(k) * n + k];
        if (std::abs(p) < 0.5 || (chol && re(p) < 0.5)) return false;
        for (int i = k + 1; i < n; i++) {
            T f = A[size_t(k) * n + i] / p;
            for (int j = k + 1; j < n; j++) A[size_t(j) * n + i] -= f * A[size_t(j) * n + k];
        }
    }
    return true;
}
template <typename T>
struct Slot {
    std::unique_ptr<HMatrix<T>> h;
    std::string kind, fac;
    char sym = 'N', uplo = 'N';
    std::vector<T> before; // represented matrix when it was factored
};
template <typename T>
std::string info(const HMatrix<T> &h) {
    std::ostringstream o;
    for (auto &p : get_hmatrix_information(h)) o << p.first << "=" << p.second << ";";
    for (auto &p : get_tree_parameters(h)) o << p.first << "=" << p.second << ";";
    auto v = std::vector<const HMatrix<T> *>();
    for (auto b : all_nodes(h)) o << b->get_depth() << b->get_symmetry() << b->get_UPLO() << b->get_rank() << (b->is_hierarchical() ? 'h' : b->is_dense() ? 'd' : 'l') << (b->get_dense_data() ? 'D' : '-') << (b->get_low_rank_data() ? 'L' : '-') << ",";
    return o.str();
}

static std::string jl(const std::vector<int> &v) {
    std::string s = "[";
    for (size_t k = 0; k < v.size(); k++) s += (k ? "," : "") + std::to_string(v[k]);
    return s + "]";
}
template <typename T>
std::vector<int> par(const HMatrix<T> &h) {
    auto *d = h.get_hmatrix_tree_data();
    return {q(h.get_epsilon() * std::ldexp(1., 44)), q(d->m_eta * 2), int(d->m_minimal_target_depth), int(d->m_minimal_source_depth), int(d->m_is_block_tree_consistent), d->m_information.count("note") ? std::stoi(d->m_information.at("note")) : -1, h.get_symmetry(), h.get_UPLO(), h.get_symmetry_for_leaves(), h.get_UPLO_for_leaves(), int(h.get_depth()), int(h.is_root())};
}
template <typename T>
void replay(Trace &tr, Rng &r, const std::string &line) {
    std::vector<std::vector<std::string>> ops;
    std::stringstream ss(line);
    for (std::string w; std::getline(ss, w, ';');) {
        if (w.empty()) continue;
        std::stringstream s2(w);
        std::vector<std::string> f;
        for (std::string x; std::getline(s2, x, ':');) f.push_back(x);
        ops.push_back(f);
    }
    // two trees so that copies also change the shape of what they overwrite
    int n1 = r.range(6, 14), n2 = r.range(6, 14);
    std::vector<Cl> trees;
    for (int n : {n1, n2}) trees.push_back(pick_tree(r, n, 3));
    Cl single = good_tree(r, r.range(3, 6), 2, 10, 2, 1, false, 0);
    (void)single;
    std::vector<Slot<T>> S(9);
    std::vector<Cl> keep;
    tr.begin_case();
    tr.put(Ev("case"));
    errors().errors = 0;
    omp_set_num_threads(r.range(1, 3));
    auto name = [](int k) { return "o" + std::to_string(k); };
    auto watch = [&]() {
        Obs o;
        for (int k = 1; k < 9; k++)
            if (S[k].h && S[k].fac.empty()) o.h(name(k), *S[k].h);
        return o.str();
    };
    auto settings = [&]() {
        std::string l = "[";
        for (int k = 1; k < 9; k++)
            if (S[k].h) l += std::string(l.size() > 1 ? "," : "") + "{\"o\":\"" + name(k) + "\",\"par\":" + jl(par(*S[k].h)) + "}";
        Ev e("settings");
        e.raw("of", l + "]");
        tr.put(e);
    };
    auto tune = [&](int k, const std::string &o) {
        Ev e("tune");
        e.s("x", name(k)).seq("par", par(*S[k].h)).raw("obs", o);
        tr.put(e);
    };
    bool more = false;
    for (auto &f : ops) {
        if (more) settings();
        more  = true;
        int d = std::stoi(f[1]);
        std::string op = f[0];
        auto &D = S[d];
        Ev e("");
        if (op == "build") {
            std::string k = f[2];
            const Cl &t = trees[r.range(0, 1)], &s = (k == "lr" || k == "dense") && r.chance(50) ? trees[r.range(0, 1)] : t;
            HOpt o    = ropt(r);
            o.refuse  = 0;
            D         = Slot<T>();
            D.kind    = k;
            if (k == "sym") {
                D.sym = o.sym = is_c<T>::value && r.chance(50) ? 'H' : 'S';
                D.uplo = o.uplo = r.chance(50) ? 'L' : 'U';
            }
            o.mode    = k == "lr" ? 4 : r.range(2, 3);
            bool hpd  = k == "sym" && r.chance(70);
            bool dom  = k != "lr" && &t == &s;
            HObj<T> A = build_h<T>(t, s, int_op<T>(r, t.get_size(), s.get_size(), o.sym, -1, 1, r.range(5, 40), hpd || dom), o);
            if (k == "lr" || k == "dense") { // a single leaf
                std::vector<const HMatrix<T> *> lf;
                for (auto b : all_nodes(*A.h))
                    if (b->is_leaf() && b->is_dense() == (k == "dense") && (k != "dense" || (b->nb_rows() == b->nb_cols() && b->get_target_cluster() == b->get_source_cluster()))) lf.push_back(b);
                if (lf.empty()) {
                    for (auto b : all_nodes(*A.h)) if (b->is_leaf()) lf.push_back(b);
                }
                auto b = lf[r.range(0, int(lf.size()) - 1)];
                D.h    = std::make_unique<HMatrix<T>>(*b);
                if (D.h->is_dense()) D.kind = "dense";
                A.h = std::make_shared<HMatrix<T>>(*D.h);
            } else
                D.h = std::make_unique<HMatrix<T>>(std::move(*A.h));
            Ev l("let");
            HObj<T> X = A;
            auto v    = [&] {
                int r0 = D.h->get_target_cluster().get_offset(), m = D.h->nb_rows(), c0 = D.h->get_source_cluster().get_offset(), n = D.h->nb_cols();
                std::vector<T> w(size_t(m) * n);
                for (int j = 0; j < n; j++)
                    for (int i = 0; i < m; i++) w[size_t(j) * m + i] = X.g(t.get_permutation()[r0 + i], s.get_permutation()[c0 + j]);
                return w;
            }();
            l.s("x", name(d)).mat("M", v.data(), D.h->nb_rows(), D.h->nb_cols()).raw("lay", layout<T>(*D.h));
            if (D.h->get_target_cluster().is_root()) l.seq("pt", t.get_permutation());
            if (D.h->get_source_cluster().is_root()) l.seq("ps", s.get_permutation());
            l.raw("obs", watch());
            tr.put(l);
            D.h->set_epsilon(r.range(1, 200) * std::ldexp(1., -44));
            D.h->set_eta(r.range(1, 40) / 2.);
            tune(d, "[]");
            continue;
        }
        if (!D.h && (op == "scale" || op == "add" || op == "factor" || op == "tune" || op == "drop")) continue;
        errors().errors = 0;
        if (op == "cc" || op == "assign" || op == "mc" || op == "massign") {
            int s  = std::stoi(f[2]);
            auto &Y = S[s];
            if (!Y.h) continue;
            std::string iy = info(*Y.h);
            bool mv        = op[0] == 'm';
            if (op == "cc")
                D.h = std::make_unique<HMatrix<T>>(*Y.h);
            else if (op == "mc")
                D.h = std::make_unique<HMatrix<T>>(std::move(*Y.h));
            else if (!D.h)
                continue;
            else if (op == "assign") {
                HMatrix<T> &self = *D.h;
                self             = *Y.h;
            } else
                *D.h = std::move(*Y.h);
            if (s != d) {
                D.kind = Y.kind;
                D.fac  = Y.fac;
                D.sym  = Y.sym;
                D.uplo = Y.uplo;
                D.before = Y.before;
            }
            if (mv) {
                Y.h.reset();
                Y.fac.clear();
            }
            Ev c(mv ? "move" : "copy");
            c.s("x", name(d)).s("y", name(s)).s("how", op).s("infox", info(*D.h)).s("infoy", iy).raw("obs", watch()).i("err", errors().errors);
            tr.put(c);
            continue;
        }
        if (op == "tune") { // set each to a given value, so that what is expected does not come from reading back
            std::vector<int> v = {r.range(1, 200), r.range(1, 40), r.range(0, 5), r.range(0, 5), r.chance(50), r.range(0, 999)};
            D.h->set_epsilon(v[0] * std::ldexp(1., -44));
            D.h->set_eta(v[1] / 2.);
            D.h->set_minimal_target_depth(v[2]);
            D.h->set_minimal_source_depth(v[3]);
            D.h->set_block_tree_consistency(v[4]);
            D.h->get_hmatrix_tree_data()->m_information["note"] = std::to_string(v[5]);
            D.h->set_block_tree_consistency(true); // products rely on it
            v[4] = 1;
            auto flags = par(*D.h); // not touched by tuning
            v.insert(v.end(), flags.begin() + 6, flags.end());
            Ev e2("tune");
            e2.s("x", name(d)).seq("par", v).raw("obs", watch());
            tr.put(e2);
            continue;
        }
        if (op == "drop") {
            D = Slot<T>();
            Ev c("drop");
            c.s("x", name(d)).raw("obs", watch());
            tr.put(c);
        } else if (op == "scale") {
            if (!D.fac.empty()) continue;
            T a = mk<T>(r.range(1, 2), D.sym == 'H' || D.kind == "hier" ? 0 : r.range(0, 1));
            scale(a, *D.h);
            Ev c("scale");
            c.raw("X", vf::ref(name(d))).scal("alpha", a).raw("obs", watch()).i("err", errors().errors);
            tr.put(c);
        } else if (op == "add") {
            if (!D.fac.empty()) continue;
            int m = D.h->nb_rows(), n = D.h->nb_cols(), k = r.range(1, 2);
            LowRankMatrix<T> L = make_lr<T>(r, m, n, k, EXACT, -1, 1);
            if (D.sym != 'N' && D.h->get_target_cluster() == D.h->get_source_cluster())
                for (int l = 0; l < k; l++)
                    for (int i = 0; i < n; i++) L.get_V()(l, i) = D.sym == 'H' ? cj(L.get_U(i, l)) : L.get_U(i, l);
            let_l(tr, "L", L, m, n);
            internal_add_lrmat_hmatrix(L, *D.h);
            Ev c("add");
            c.raw("X", vf::ref(name(d))).raw("Y", ref("L")).i("dr", 0).i("dc", 0).raw("obs", watch()).i("err", errors().errors);
            tr.put(c);
        } else if (op == "factor") {
            auto v    = full_dense<T>(*D.h);
            int m     = D.h->nb_rows();
            bool chol = D.sym != 'N';
            if (!D.fac.empty() || m != D.h->nb_cols() || !(D.h->get_target_cluster() == D.h->get_source_cluster())) continue;
            if (chol && is_c<T>::value && D.sym == 'S') continue;
            if (!well_conditioned(v, m, chol)) continue;
            if (D.h->is_leaf() && !D.h->is_dense()) continue;
            D.before = v;
            D.fac    = chol ? std::string("CH") + D.uplo : "LU";
            if (chol)
                cholesky_factorization(D.uplo, *D.h);
            else
                lu_factorization(*D.h);
            Ev c("factor");
            c.s("x", name(d)).s("how", D.fac).raw("obs", watch()).i("err", errors().errors);
            tr.put(c);
        }
    }
    settings();
    // every object still behaves as the matrix it stands for
    for (int k = 1; k < 9; k++) {
        auto &D = S[k];
        if (!D.h) continue;
        int m = D.h->nb_rows(), n = D.h->nb_cols();
        errors().errors = 0;
        if (!D.fac.empty()) {
            int mu  = r.some(1, 2);
            char t  = D.fac == "LU" ? rtrans(r) : 'N';
            auto X0 = rvec<T>(r, m * mu, -2, 2);
            std::vector<T> B(size_t(m) * mu, T(0));
            for (int c = 0; c < mu; c++)
                for (int i = 0; i < m; i++)
                    for (int j = 0; j < m; j++) {
                        T a = t == 'N' ? D.before[size_t(j) * m + i] : t == 'T' ? D.before[size_t(i) * m + j] : cj(D.before[size_t(i) * m + j]);
                        B[size_t(c) * m + i] += a * X0[size_t(c) * m + j];
                    }
            Matrix<T> X = to_matrix(B, m, mu);
            if (D.fac == "LU")
                internal_lu_solve(t, *D.h, X);
            else
                internal_cholesky_solve(D.uplo, *D.h, X);
            Ev s("solve");
            s.s("x", name(k)).c("t", t).s("num", "cluster").mat("B", B.data(), m, mu).mat("X", X.data(), m, mu).i("err", errors().errors);
            tr.put(s);
            continue;
        }
        char t = rtrans(r);
        if ((t == 'T' && D.sym == 'H') || (t == 'C' && D.sym == 'S')) t = 'N';
        int p = t == 'N' ? m : n, q = t == 'N' ? n : m;
        auto x = rvec<T>(r, q), y = rvec<T>(r, p);
        T alpha = rscal<T>(r), beta = rscal<T>(r);
        let_m(tr, "x", x.data(), q, 1);
        let_m(tr, "y", y.data(), p, 1);
        int form = r.range(0, 2);
        if (form == 0)
            openmp_internal_add_hmatrix_vector_product(t, alpha, *D.h, x.data(), beta, y.data());
        else if (form == 1)
            sequential_internal_add_hmatrix_vector_product(t, alpha, *D.h, x.data(), beta, y.data());
        else {
            Matrix<T> X = to_matrix(x, q, 1), Y = to_matrix(y, p, 1);
            internal_add_hmatrix_matrix_product(t, 'N', alpha, *D.h, X, beta, Y);
            std::copy(Y.data(), Y.data() + p, y.begin());
        }
        tr.put(mul("product", vf::ref(name(k)), t, ref("x"), 'N', alpha, beta, ref("y"), Obs().d("y", y.data(), p, 1).h(name(k), *D.h), errors().errors));
        if (D.h->get_target_cluster().is_root() && D.h->get_source_cluster().is_root()) {
            std::vector<T> R(size_t(m) * n, T(0));
            copy_to_dense_in_user_numbering(*D.h, R.data());
            Ev e("extract");
            e.s("what", "dense user").raw("X", vf::ref(name(k))).mat("R", R.data(), m, n).seq("pt", D.h->get_target_cluster().get_permutation()).seq("ps", D.h->get_source_cluster().get_permutation()).s("stored", "");
            tr.put(e);
        }
    }
}

int main(int argc, char **argv) {
    long seed = argi(argc, argv, "--seed", 1), shards = argi(argc, argv, "--shards", 1);
    Trace tr(arg(argc, argv, "--out", "/tmp/trace"), int(shards));
    errors();
    Rng r(uint64_t(seed) * 977 + 8);
    std::ifstream in(arg(argc, argv, "--hist", ""));
    for (std::string l; std::getline(in, l);) {
        if (l.empty()) continue;
        Rng rc(r.next());
        rc.chance(50) ? replay<cd>(tr, rc, l) : replay<double>(tr, rc, l);
    }
    return 0;
}
