// Algebra of low-rank matrices: histories of operations on a store of low-rank and dense objects (L02).
#include "agen.hpp"
using namespace vf;
using namespace htool;

template <typename T>
struct Store {
    Trace &tr;
    Rng &r;
    T al, be;
    template <typename F>
    int go(F f) {
        errors().errors = 0;
        f();
        return errors().errors;
    }
    int dim() { return r.chance(6) ? 1 : r.chance(96) ? r.range(2, 9) : r.range(10, 40); }
    int rank(int m, int n) { return r.chance(25) ? 0 : r.range(1, r.chance(80) ? std::min(3, std::max(1, std::min(m, n))) : 4); }
    LowRankMatrix<T> lr(int m, int n) {
        if (r.chance(8)) return LowRankMatrix<T>(EXACT); // factors never sized: zero
        return make_lr<T>(r, m, n, rank(m, n), EXACT);
    }
    Matrix<T> dn(int m, int n) { return to_matrix(rvec<T>(r, m * n, -2, 2), m, n); }

    void products() {
        tr.put(Ev("case"));
        int m = dim(), k = dim(), n = dim();
        // results that live through several operations
        auto C = lr(m, n);
        auto D = dn(m, n);
        let_l(tr, "C", C, m, n);
        let_m(tr, "D", D.data(), m, n);
        int steps = r.range(1, 4);
        for (int s = 0; s < steps; s++) {
            char ta = rtrans(r), tb = rtrans(r);
            int kind = r.range(0, 9);
            al = rscal<T>(r), be = r.chance(40) ? T(1) : rscal<T>(r);
            if (s > 1 && std::abs(be) > 1.5) be = T(-1);
            int am = ta == 'N' ? m : k, an = ta == 'N' ? k : m, bm = tb == 'N' ? k : n, bn = tb == 'N' ? n : k;
            auto LA = make_lr<T>(r, am, an, rank(am, an), EXACT), LB = make_lr<T>(r, bm, bn, rank(bm, bn), EXACT);
            auto A = dn(am, an), B = dn(bm, bn);
            bool low = r.chance(60);
            auto put = [&](const char *f, bool la, bool lb, int err) {
                Obs o;
                if (la) o.l("A", LA, am, an); else o.m("A", A);
                if (lb) o.l("B", LB, bm, bn); else o.m("B", B);
                o.l("C", C, m, n).m("D", D);
                tr.put(mul<T>(std::string(f) + (low ? " into low rank" : " into dense"), vf::ref("A"), ta, vf::ref("B"), tb, al, be, vf::ref(low ? "C" : "D"), o, err));
            };
            auto lets = [&](bool la, bool lb) {
                if (la) let_l(tr, "A", LA, am, an); else let_m(tr, "A", A.data(), am, an);
                if (lb) let_l(tr, "B", LB, bm, bn); else let_m(tr, "B", B.data(), bm, bn);
            };
            if (kind <= 2) {
                lets(true, true);
                int e = go([&] { if (low) add_lrmat_lrmat_product(ta, tb, al, LA, LB, be, C); else add_lrmat_lrmat_product(ta, tb, al, LA, LB, be, D); });
                put("low rank x low rank", true, true, e);
            } else if (kind <= 4) {
                lets(true, false);
                int e = go([&] { if (low) add_lrmat_matrix_product(ta, tb, al, LA, B, be, C); else add_lrmat_matrix_product(ta, tb, al, LA, B, be, D); });
                put("low rank x dense", true, false, e);
            } else if (kind <= 6) {
                lets(false, true);
                int e = go([&] { if (low) add_matrix_lrmat_product(ta, tb, al, A, LB, be, C); else add_matrix_lrmat_product(ta, tb, al, A, LB, be, D); });
                put("dense x low rank", false, true, e);
            } else if (kind == 7) {
                low = true;
                lets(false, false);
                int e = go([&] { add_matrix_matrix_product(ta, tb, al, A, B, be, C); });
                put("dense x dense", false, false, e);
            } else if (kind == 8) {
                T a = rscal<T>(r);
                if (s > 1 && std::abs(a) > 1.5) a = T(-1);
                let_l(tr, "A", LA, am, an);
                int e = go([&] { scale(a, C); });
                tr.put(Ev("scale").raw("X", vf::ref("C")).scal("alpha", a).raw("obs", Obs().l("C", C, m, n).l("A", LA, am, an).str()).i("err", e));
            } else {
                // an independent copy takes over, the original is changed
                LowRankMatrix<T> K(C), M2(1e-3);
                M2 = C;
                tr.put(Ev("copy").s("x", "K").s("y", "C").raw("obs", Obs().l("K", K, m, n).l("C", C, m, n).str()).i("err", 0));
                int e = go([&] { scale(T(-1), C); });
                tr.put(Ev("scale").raw("X", vf::ref("C")).scal("alpha", T(-1)).raw("obs", Obs().l("C", C, m, n).l("K", K, m, n).l("K", M2, m, n).str()).i("err", e));
                C = M2;
                tr.put(Ev("copy").s("x", "C").s("y", "K").raw("obs", Obs().l("K", K, m, n).l("C", C, m, n).str()).i("err", 0));
            }
        }
        if (C.nb_rows() == m && C.nb_cols() == n) {
            std::vector<T> out(size_t(m) * n, T(7));
            C.copy_to_dense(out.data());
            tr.put(Ev("extract").s("what", "dense").raw("X", vf::ref("C")).raw("R", jmat(out.data(), m, n)).s("stored", ""));
        }
    }
    void vectors() {
        tr.put(Ev("case"));
        int m = dim(), k = dim(), n = dim(), kind = r.range(0, 1);
        char ta = rtrans(r);
        al = rscal<T>(r), be = rscal<T>(r);
        int am = ta == 'N' ? m : k, an = ta == 'N' ? k : m;
        auto LA = make_lr<T>(r, am, an, rank(am, an), EXACT);
        int mu  = kind == 0 ? 1 : n;
        auto X = dn(k, mu), Y = dn(m, mu);
        let_l(tr, "A", LA, am, an);
        let_m(tr, "B", X.data(), k, mu);
        let_m(tr, "C", Y.data(), m, mu);
        int e;
        if (kind == 0)
            e = go([&] { add_lrmat_vector_product(ta, al, LA, X.data(), be, Y.data()); });
        else {
            auto rows = [](const T *p, int a, int b) { std::vector<T> v(size_t(a) * b); for (int j = 0; j < b; j++) for (int i = 0; i < a; i++) v[size_t(i) * b + j] = p[size_t(j) * a + i]; return v; };
            auto x = rows(X.data(), k, mu), y = rows(Y.data(), m, mu);
            e = go([&] { add_lrmat_matrix_product_row_major(ta, 'N', al, LA, x.data(), be, y.data(), mu); });
            auto xx = rows(x.data(), mu, k), yy = rows(y.data(), mu, m);
            std::copy(xx.begin(), xx.end(), X.data());
            std::copy(yy.begin(), yy.end(), Y.data());
        }
        tr.put(mul<T>(kind == 0 ? "low rank x vector" : "low rank x vectors by rows", vf::ref("A"), ta, vf::ref("B"), 'N', al, be, vf::ref("C"), Obs().l("A", LA, am, an).m("B", X).m("C", Y), e));
        if (ta == 'N' && kind == 0) {
            std::vector<T> x(X.data(), X.data() + k), y = LA * x;
            tr.put(mul<T>("operator * vector", vf::ref("A"), 'N', vf::ref("B"), 'N', T(1), T(0), vf::ref("C"), Obs().l("A", LA, am, an).m("B", X).d("C", y.data(), int(y.size()), 1), 0));
        }
    }
    // its distance to a reference, with all or some of its terms
    void misfit() {
        tr.put(Ev("case"));
        Cl t = pick_tree(r, r.range(2, 9)), s = pick_tree(r, r.range(2, 9));
        int p = t.get_size(), q = s.get_size();
        auto L = make_lr<T>(r, p, q, rank(p, q), EXACT);
        struct Ref : VirtualInternalGenerator<T> {
            Matrix<T> G;
            void copy_submatrix(int M, int N, int r0, int c0, T *out) const override {
                for (int j = 0; j < N; j++)
                    for (int i = 0; i < M; i++) out[size_t(j) * M + i] = G(r0 + i, c0 + j);
            }
        } g;
        g.G = dn(p, q);
        int req = r.chance(40) ? -1 : r.range(0, L.rank_of());
        const double lim = 1e9;
        auto sq = [&](double v) { double w = v * v; return std::fabs(w - std::round(w)) < (sizeof(double) == 4 ? 0.2 : 1e-6) && w < lim ? int(std::round(w)) : -1; };
        double er = req < 0 ? Frobenius_absolute_error(t, s, L, g) : Frobenius_absolute_error(t, s, L, g, req);
        if (sizeof(double) == 4 && er > 600) return; // single precision no longer tells its square
        tr.put(Ev("misfit").raw("U", jmat(L.get_U().data(), p, L.rank_of())).raw("V", jmat(L.get_V().data(), L.rank_of(), q)).raw("G", jmat(g.G.data(), p, q)).i("r", req < 0 ? L.rank_of() : req).i("sq", sq(er)).i("saving", int(std::round(L.space_saving() * p * q * 16))));
    }
    // sums of blocks one of which contains the other
    void sums() {
        tr.put(Ev("case"));
        int n1 = pick_size(r), n2 = pick_size(r);
        Cl t = pick_tree(r, n1), s = pick_tree(r, n2);
        auto chain = [&](const Cl &root) {
            std::vector<const Cl *> v{&root};
            for (size_t i = 0; i < v.size(); i++)
                for (auto &c : v[i]->get_children()) v.push_back(c.get());
            const Cl *a = v[size_t(r.range(0, int(v.size()) - 1))];
            std::vector<const Cl *> w{a};
            for (size_t i = 0; i < w.size(); i++)
                for (auto &c : w[i]->get_children()) w.push_back(c.get());
            return std::make_pair(a, r.chance(30) ? a : w[size_t(r.range(0, int(w.size()) - 1))]);
        };
        auto ct = chain(t), cs = chain(s);
        bool mixed = r.chance(12), down = r.chance(50); // down: X is the larger one
        const Cl *xt = down ? ct.first : ct.second, *yt = down ? ct.second : ct.first, *xs = down != mixed ? cs.first : cs.second, *ys = down != mixed ? cs.second : cs.first;
        int m = yt->get_size(), n = ys->get_size(), p = xt->get_size(), q = xs->get_size();
        auto Y = lr(m, n);
        let_l(tr, "Y", Y, m, n);
        int steps = r.range(1, 4);
        for (int k = 0; k < steps; k++) {
            auto X = make_lr<T>(r, p, q, rank(p, q), EXACT);
            let_l(tr, "X", X, p, q);
            int e = go([&] { add_lrmat_lrmat(X, *xt, *xs, Y, *yt, *ys); });
            tr.put(Ev("add").raw("X", vf::ref("Y")).raw("Y", vf::ref("X")).i("dr", xt->get_offset() - yt->get_offset()).i("dc", xs->get_offset() - ys->get_offset()).b("refusable", mixed).raw("obs", Obs().l("Y", Y, m, n).l("X", X, p, q).str()).i("err", e));
        }
    }
};
template <typename T>
void one(Trace &tr, Rng &r, int c) {
    Store<T> s{tr, r, T(0), T(0)};
    int k = c / 2 % 8;
    if (k <= 4) s.products();
    else if (k == 5) c % 32 < 16 ? s.vectors() : s.misfit();
    else s.sums();
}
int main(int argc, char **argv) {
    std::string out = arg(argc, argv, "--out", "/tmp/trace");
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 20), shards = argi(argc, argv, "--shards", 1);
    errors();
    Trace tr(out, int(shards));
    for (int c = 0; c < cases; c++) {
        Rng r(uint64_t(seed) * 1000003 + uint64_t(c) + 3131);
        tr.begin_case();
        if (c % 2) one<double>(tr, r, c); else one<cd>(tr, r, c);
    }
    return 0;
}
