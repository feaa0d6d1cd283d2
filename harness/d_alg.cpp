// Algebra of hierarchical matrices (H02-H05, H07, H09).
#include "agen.hpp"
using namespace vf;
using namespace htool;

template <typename T>
HObj<T> random_h(Rng &r, const Cl &t, const Cl &s, bool allow_sym, bool allow_parts, bool any_structure) {
    HOpt o = ropt(r);
    if (any_structure && !forced().on) {
        o.cons = r.chance(70);
        o.mint = r.chance(25) ? r.range(0, 3) : 0;
        o.mins = r.chance(25) ? r.range(0, 3) : 0;
    }
    bool square = &t == &s;
    if (allow_sym && square && (imposed_sym() || r.chance(65))) {
        o.sym  = is_c<T>::value && r.chance(50) ? 'H' : 'S';
        o.uplo = r.chance(50) ? 'L' : 'U';
        if (imposed_sym()) o.uplo = forced().sym;
        o.cons = true; // the builder refuses anything else with one-triangle storage
    }
    int np = int(t.get_clusters_on_partition().size());
    if (allow_parts && np > 1 && r.chance(35)) {
        o.tp = r.range(0, np - 1);
        o.sp = o.sym != 'N' ? o.tp : -1;
    }
    return build_h<T>(t, s, int_op<T>(r, t.get_size(), s.get_size(), o.sym), o);
}
inline bool unsupported(char trans, char sym) { return (trans == 'T' && sym == 'H') || (trans == 'C' && sym == 'S'); }

template <typename T>
void case_products(Trace &tr, Rng &r, const std::string &suite) {
    int m  = pick_size(r), n = r.chance(50) ? m : pick_size(r);
    Cl t   = pick_tree(r, m), s2 = pick_tree(r, n);
    bool same   = r.chance(60) || imposed_sym();
    const Cl &s = same ? t : s2;
    errors().errors = 0;
    HObj<T> A = random_h<T>(r, t, s, true, true, true);
    omp_set_num_threads(r.range(1, 4));
    tr.begin_case();
    tr.put(Ev("case"));
    let_h(tr, "A", A);
    auto nodes = all_nodes(*A.h);
    for (int rep = 0; rep < 6; rep++) {
        const HMatrix<T> *b = r.chance(65) ? A.h.get() : nodes[r.range(0, int(nodes.size()) - 1)];
        char trans          = rtrans(r);
        char bsym           = A.o.sym;
        bool un             = unsupported(trans, bsym);
        if (un && (b != A.h.get() || A.o.tp >= 0)) { // an off-diagonal block has no mirror part to worry about
            trans = 'N';
            un    = false;
        }
        T alpha = rscal<T>(r), beta = rscal<T>(r);
        int rows = b->nb_rows(), cols = b->nb_cols();
        std::string ar = href<T>("A", *A.h, *b);
        if (suite == "H02") {
            int ni = trans == 'N' ? cols : rows, no = trans == 'N' ? rows : cols;
            auto x = rvec<T>(r, ni), y = rvec<T>(r, no);
            let_m(tr, "x", x.data(), ni, 1);
            let_m(tr, "y", y.data(), no, 1);
            int k = r.range(0, 2);
            errors().errors = 0;
            if (k == 0 || (b->is_leaf() && !un)) // leaves only have the plain entry point
                internal_add_hmatrix_vector_product(trans, alpha, *b, x.data(), beta, y.data());
            else if (k == 1)
                sequential_internal_add_hmatrix_vector_product(trans, alpha, *b, x.data(), beta, y.data());
            else
                openmp_internal_add_hmatrix_vector_product(trans, alpha, *b, x.data(), beta, y.data());
            if (!un || !b->is_leaf())
                tr.put(mul<T>("vector" + std::to_string(k), ar, trans, ref("x"), 'N', alpha, beta, ref("y"), Obs().d("y", y.data(), no, 1).d("x", x.data(), ni, 1).h("A", *A.h), errors().errors, un ? "unsupported" : "mul"));
            continue;
        }
        int mu = r.some(1, 5), k = r.range(0, 5);
        if (k <= 2) { // right-hand sides stored by rows
            int ni = trans == 'N' ? cols : rows, no = trans == 'N' ? rows : cols;
            auto x = rvec<T>(r, ni * mu), y = rvec<T>(r, no * mu);
            auto tp = [](const std::vector<T> &v, int p, int q) { std::vector<T> w(v.size()); for (int i = 0; i < p; i++) for (int j = 0; j < q; j++) w[size_t(j) * p + i] = v[size_t(i) * q + j]; return w; };
            auto xc = tp(x, ni, mu), yc = tp(y, no, mu);
            let_m(tr, "x", xc.data(), ni, mu);
            let_m(tr, "y", yc.data(), no, mu);
            errors().errors = 0;
            if (k == 0 || (b->is_leaf() && !un))
                internal_add_hmatrix_matrix_product_row_major(trans, 'N', alpha, *b, x.data(), beta, y.data(), mu);
            else if (k == 1)
                sequential_internal_add_hmatrix_matrix_product_row_major(trans, 'N', alpha, *b, x.data(), beta, y.data(), mu);
            else
                openmp_internal_add_hmatrix_matrix_product_row_major(trans, 'N', alpha, *b, x.data(), beta, y.data(), mu);
            yc = tp(y, no, mu);
            xc = tp(x, ni, mu);
            if (!un || !b->is_leaf())
                tr.put(mul<T>("rows" + std::to_string(k), ar, trans, ref("x"), 'N', alpha, beta, ref("y"), Obs().d("y", yc.data(), no, mu).d("x", xc.data(), ni, mu).h("A", *A.h), errors().errors, un ? "unsupported" : "mul"));
        } else if (k == 3) { // H * dense
            if (un || (b->is_leaf() && b != A.h.get() && b->is_leaf() && A.o.sym != 'N')) continue;
            char tb = rtrans(r);
            int ni = trans == 'N' ? cols : rows, no = trans == 'N' ? rows : cols;
            Matrix<T> B = to_matrix(rvec<T>(r, ni * mu), tb == 'N' ? ni : mu, tb == 'N' ? mu : ni), C = to_matrix(rvec<T>(r, no * mu), no, mu);
            let_m(tr, "B", B.data(), B.nb_rows(), B.nb_cols());
            let_m(tr, "C", C.data(), no, mu);
            errors().errors = 0;
            internal_add_hmatrix_matrix_product(trans, tb, alpha, *b, B, beta, C);
            tr.put(mul<T>("H*D", ar, trans, ref("B"), tb, alpha, beta, ref("C"), Obs().m("C", C).m("B", B).h("A", *A.h), errors().errors));
        } else { // dense * H
            char ta = rtrans(r), tb = rtrans(r);
            int ni = tb == 'N' ? rows : cols, no = tb == 'N' ? cols : rows;
            Matrix<T> B = to_matrix(rvec<T>(r, ni * mu), ta == 'N' ? mu : ni, ta == 'N' ? ni : mu), C = to_matrix(rvec<T>(r, no * mu), mu, no);
            let_m(tr, "B", B.data(), B.nb_rows(), B.nb_cols());
            let_m(tr, "C", C.data(), mu, no);
            errors().errors = 0;
            internal_add_matrix_hmatrix_product(ta, tb, alpha, B, *b, beta, C);
            tr.put(mul<T>("D*H", ref("B"), ta, ar, tb, alpha, beta, ref("C"), Obs().m("C", C).m("B", B).h("A", *A.h), errors().errors));
        }
    }
}

// products among hierarchical, low-rank and dense operands (H04)
template <typename T>
void case_mixed(Trace &tr, Rng &r) {
    Cl tm = pick_tree(r, pick_size(r)), tk = pick_tree(r, pick_size(r)), tn = pick_tree(r, pick_size(r));
    const Cl &M = tm, &K = r.chance(40) ? tm : tk, &N = r.chance(40) ? tm : tn;
    char ta = rtrans(r), tb = rtrans(r);
    omp_set_num_threads(r.range(1, 4));
    errors().errors = 0;
    double eps = EXACT;
    int m = M.get_size(), k = K.get_size(), n = N.get_size();
    int form = r.range(0, 8);
    // A: 0-2 H, 3-5 low rank / dense ; see below
    bool symok = form == 0 || form == 1 || form == 6;
    HObj<T> A, B, C;
    bool hA = form == 0 || form == 1 || form == 2 || form == 3 || form == 6 || form == 8, hB = !(form == 0 || form == 6 || form == 1);
    const Cl &A1 = ta == 'N' ? M : K, &A2 = ta == 'N' ? K : M, &B1 = tb == 'N' ? K : N, &B2 = tb == 'N' ? N : K;
    bool hh = form == 2 || form == 3 || form == 8;
    tr.begin_case();
    tr.put(Ev("case"));
    if (hA) {
        A = random_h<T>(r, A1, A2, symok, false, true);
        if (unsupported(ta, A.o.sym)) ta = 'N';
        if (A.o.sym != 'N' && &A1 != &A2) return;
        let_h(tr, "A", A);
    }
    if (hB) {
        B = random_h<T>(r, B1, B2, form == 4 || form == 5 || form == 7, false, true);
        let_h(tr, "B", B);
    }
    LowRankMatrix<T> LA = make_lr<T>(r, A1.get_size(), A2.get_size(), r.range(0, 3), eps), LB = make_lr<T>(r, B1.get_size(), B2.get_size(), r.range(0, 3), eps), LC = make_lr<T>(r, m, n, r.range(0, 3), eps);
    Matrix<T> DA = to_matrix(rvec<T>(r, m * k), A1.get_size(), A2.get_size()), DB = to_matrix(rvec<T>(r, n * k), B1.get_size(), B2.get_size()), DC = to_matrix(rvec<T>(r, m * n), m, n);
    T alpha = rscal<T>(r), beta = rscal<T>(r);
    int target = r.range(0, 2); // 0 dense 1 low rank 2 hierarchical
    if (form == 6 || form == 7) target = 1;
    if (target == 2) {
        C = random_h<T>(r, M, N, false, false, true);
        let_h(tr, "C", C);
    } else if (target == 1)
        let_l(tr, "C", LC, m, n);
    else
        let_m(tr, "C", DC.data(), m, n);
    Obs o;
    std::string f;
    errors().errors = 0;
    auto go = [&](auto fn) {
        if (target == 0) { fn(DC); o.m("C", DC); }
        if (target == 1) { fn(LC); o.l("C", LC, m, n); }
        if (target == 2) { fn(*C.h); o.h("C", *C.h); }
    };
    const char *tn_[3] = {"D", "L", "H"};
    switch (form) {
    case 0: // H * L
    case 1:
        let_l(tr, "B", LB, B1.get_size(), B2.get_size());
        go([&](auto &X) { internal_add_hmatrix_lrmat_product(ta, tb, alpha, *A.h, LB, beta, X); });
        o.h("A", *A.h).l("B", LB, B1.get_size(), B2.get_size());
        f = "H*L";
        break;
    case 4: // L * H
    case 5:
        let_l(tr, "A", LA, A1.get_size(), A2.get_size());
        go([&](auto &X) { internal_add_lrmat_hmatrix_product(ta, tb, alpha, LA, *B.h, beta, X); });
        o.h("B", *B.h).l("A", LA, A1.get_size(), A2.get_size());
        f = "L*H";
        break;
    case 6: // H * D -> L
        let_m(tr, "B", DB.data(), B1.get_size(), B2.get_size());
        internal_add_hmatrix_matrix_product(ta, tb, alpha, *A.h, DB, beta, LC);
        o.l("C", LC, m, n).h("A", *A.h).m("B", DB);
        f = "H*D";
        break;
    case 7: // D * H -> L
        let_m(tr, "A", DA.data(), A1.get_size(), A2.get_size());
        internal_add_matrix_hmatrix_product(ta, tb, alpha, DA, *B.h, beta, LC);
        o.l("C", LC, m, n).h("B", *B.h).m("A", DA);
        f = "D*H";
        break;
    default: // H * H
        go([&](auto &X) { internal_add_hmatrix_hmatrix_product(ta, tb, alpha, *A.h, *B.h, beta, X); });
        o.h("A", *A.h).h("B", *B.h);
        f = "H*H";
    }
    tr.put(mul<T>(f + "->" + tn_[target], ref("A"), ta, ref("B"), tb, alpha, beta, ref("C"), o, errors().errors));
    tr.add_weight(m * k * n / 4);
}

// low-rank updates and scaling (H05)
template <typename T>
void case_update(Trace &tr, Rng &r) {
    Cl t = pick_tree(r, pick_size(r)), s2 = pick_tree(r, pick_size(r));
    const Cl &s = r.chance(50) ? t : s2;
    omp_set_num_threads(r.range(1, 4));
    HObj<T> A = random_h<T>(r, t, s, false, true, true);
    tr.begin_case();
    tr.put(Ev("case"));
    let_h(tr, "A", A);
    for (int rep = 0; rep < 5; rep++) {
        auto nodes = all_nodes(*A.h);
        auto *b    = const_cast<HMatrix<T> *>(r.chance(40) ? A.h.get() : nodes[r.range(0, int(nodes.size()) - 1)]);
        std::string ar = href<T>("A", *A.h, *b);
        errors().errors = 0;
        if (r.chance(35)) {
            T a   = rscal<T>(r);
            int k = r.range(0, 2);
            if (k == 0) scale(a, *b);
            if (k == 1) sequential_scale(a, *b);
            if (k == 2) openmp_scale(a, *b);
            Ev e("scale");
            e.i("k", k).scal("alpha", a).raw("X", ar).raw("obs", Obs().h("A", *A.h).str()).i("err", errors().errors);
            tr.put(e);
        } else {
            LowRankMatrix<T> L = make_lr<T>(r, b->nb_rows(), b->nb_cols(), r.range(0, 3), EXACT);
            let_l(tr, "L", L, b->nb_rows(), b->nb_cols());
            internal_add_lrmat_hmatrix(L, *b);
            Ev e("add");
            e.raw("X", ar).raw("Y", ref("L")).i("dr", 0).i("dc", 0).raw("obs", Obs().h("A", *A.h).l("L", L, b->nb_rows(), b->nb_cols()).str()).i("err", errors().errors);
            tr.put(e);
        }
    }
}

// extraction (H09)
template <typename T>
void case_extract(Trace &tr, Rng &r) {
    int m = pick_size(r);
    Cl t = pick_tree(r, m), s2 = pick_tree(r, r.chance(50) ? m : pick_size(r));
    const Cl &s = r.chance(60) ? t : s2;
    HObj<T> A   = random_h<T>(r, t, s, true, true, true);
    tr.begin_case();
    tr.put(Ev("case"));
    let_h(tr, "A", A);
    auto put = [&](const char *what, const std::string &x, const std::vector<T> &v, int p, int q, const std::vector<int> &pt, const std::vector<int> &ps, const std::string &stored) {
        Ev e("extract");
        e.s("what", what).raw("X", x).mat("R", v.data(), p, q).s("stored", stored);
        if (!pt.empty()) e.seq("pt", pt);
        if (!ps.empty()) e.seq("ps", ps);
        tr.put(e);
    };
    auto loc = [](const Cl &c) { std::vector<int> p(c.get_permutation().begin() + c.get_offset(), c.get_permutation().begin() + c.get_offset() + c.get_size()); for (auto &v : p) v -= c.get_offset(); return p; };
    auto nodes = all_nodes(*A.h);
    for (int rep = 0; rep < 4; rep++) {
        const HMatrix<T> *b = rep == 0 ? A.h.get() : nodes[r.range(0, int(nodes.size()) - 1)];
        std::string x       = href<T>("A", *A.h, *b);
        int p = b->nb_rows(), q = b->nb_cols();
        std::vector<T> v(size_t(p) * q, A.o.sym == 'N' ? T(77) : T(0));
        copy_to_dense(*b, v.data());
        // with one-triangle storage the copy holds the stored triangle
        bool under_sym = false;
        for (auto n : nodes)
            if (n->get_symmetry() != 'N' && n->get_target_cluster().get_offset() <= b->get_target_cluster().get_offset() && n->get_source_cluster().get_offset() <= b->get_source_cluster().get_offset() && n->get_target_cluster().get_offset() + n->nb_rows() >= b->get_target_cluster().get_offset() + p && n->get_source_cluster().get_offset() + n->nb_cols() >= b->get_source_cluster().get_offset() + q)
                under_sym = true;
        bool diag_block = b->get_target_cluster().get_offset() == b->get_source_cluster().get_offset() && p == q;
        bool part_build = A.o.tp >= 0 && A.o.sym != 'N';
        if (!(part_build && b == A.h.get() && !diag_block))
            put("dense", x, v, p, q, {}, {}, under_sym && diag_block ? std::string(1, A.o.uplo) : std::string());
        auto usable = [](const Cl &c) { return c.is_root() || (is_cluster_on_partition(c) && c.is_permutation_local()); };
        if (usable(b->get_target_cluster()) && usable(b->get_source_cluster())) {
            std::vector<T> u(size_t(p) * q, T(77));
            errors().errors = 0;
            copy_to_dense_in_user_numbering(*b, u.data());
            put("dense user", x, u, p, q, loc(b->get_target_cluster()), loc(b->get_source_cluster()), "");
        }
        if (diag_block) {
            std::vector<T> d(p, T(77));
            copy_diagonal(*b, d.data());
            put("diag", x, d, p, 1, {}, {}, "");
            if (&s == &t && usable(b->get_target_cluster()) && (b->get_target_cluster().is_root() || is_cluster_on_partition(b->get_target_cluster()))) {
                std::vector<T> du(p, T(77));
                copy_diagonal_in_user_numbering(*b, du.data());
                put("diag user", x, du, p, 1, loc(b->get_target_cluster()), {}, "");
            }
        }
    }
    // lookups of arbitrary cluster pairs
    Flat ft = flatten(t), fs = flatten(s);
    for (int rep = 0; rep < 6; rep++) {
        const Cl *a, *b;
        if (r.chance(40)) {
            auto n = nodes[r.range(0, int(nodes.size()) - 1)];
            a      = &n->get_target_cluster();
            b      = &n->get_source_cluster();
        } else {
            a = ft.nodes[r.range(0, int(ft.nodes.size()) - 1)];
            b = fs.nodes[r.range(0, int(fs.nodes.size()) - 1)];
        }
        bool direct = r.chance(40), ex = false;
        if (direct) {
            ex = &A.h->get_target_cluster() == a && &A.h->get_source_cluster() == b;
            for (auto &c : A.h->get_children()) ex = ex || (&c->get_target_cluster() == a && &c->get_source_cluster() == b);
        } else
            for (auto n : nodes) ex = ex || (&n->get_target_cluster() == a && &n->get_source_cluster() == b);
        const HMatrix<T> *f = nullptr;
        const HMatrix<T> &ch = *A.h;
        if (direct)
            f = r.chance(50) ? ch.get_child_or_this(*a, *b) : A.h->get_child_or_this(*a, *b);
        else
            f = r.chance(50) ? ch.get_sub_hmatrix(*a, *b) : A.h->get_sub_hmatrix(*a, *b);
        Ev e("extract");
        e.s("what", "sub").b("exists", ex).b("found", f != nullptr).b("direct", direct);
        if (f) {
            auto v = full_dense<T>(*f);
            // an off-diagonal block below a symmetric one, or a diagonal one: what it stands for
            e.raw("X", ex ? ref("A", a->get_offset() - A.h->get_target_cluster().get_offset(), a->get_size(), b->get_offset() - A.h->get_source_cluster().get_offset(), b->get_size()) : ref("A"));
            e.mat("R", v.data(), f->nb_rows(), f->nb_cols());
        } else
            e.raw("X", ref("A")).mat("R", (T *)nullptr, 0, 0);
        e.s("stored", "");
        tr.put(e);
    }
}

template <typename T>
void any(Trace &tr, Rng &rc, const std::string &suite) {
    if (suite == "H02" || suite == "H03") case_products<T>(tr, rc, suite);
    if (suite == "H04") case_mixed<T>(tr, rc);
    if (suite == "H05") case_update<T>(tr, rc);
    if (suite == "H09") case_extract<T>(tr, rc);
}
int main(int argc, char **argv) {
    std::string suite = arg(argc, argv, "--suite", "H02");
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 10), shards = argi(argc, argv, "--shards", 1);
    Trace tr(arg(argc, argv, "--out", "/tmp/trace"), int(shards));
    errors();
    Rng r(uint64_t(seed) * 977 + std::hash<std::string>()(suite));
    auto one = [&] {
        Rng rc(r.next());
        rc.chance(50) ? any<cd>(tr, rc, suite) : any<double>(tr, rc, suite);
    };
    for (long c = 0; c < cases; c++) one();
    replay_structures(arg(argc, argv, "--hist", ""), one);
    return 0;
}
