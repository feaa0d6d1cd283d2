// Thread schedules of assembly and products (H10). With --hist: replay of MCOmp's schedules; without: free running
// threads (built with a race detector).
#include "gomp_shim.hpp"
#include "agen.hpp"
#include <htool/hmatrix/hmatrix_output.hpp>
using namespace vf;
using namespace htool;

static long g_races = 0;
#ifdef __SANITIZE_THREAD__
extern "C" void __tsan_on_report(void *) { __atomic_add_fetch(&g_races, 1, __ATOMIC_SEQ_CST); }
extern "C" const char *__tsan_default_options() { return "exitcode=0:report_thread_leaks=0:history_size=4"; }
#endif

// user objects that give other threads a chance
template <typename T>
struct SlowGen : htool::VirtualInternalGenerator<T> {
    const htool::VirtualInternalGenerator<T> &g;
    explicit SlowGen(const htool::VirtualInternalGenerator<T> &g0) : g(g0) {}
    void copy_submatrix(int M, int N, int r, int c, T *p) const override {
        shim::point();
        g.copy_submatrix(M, N, r, c, p);
        shim::point();
    }
};
template <typename T>
struct SlowCompressor : htool::VirtualLowRankGenerator<T> {
    std::shared_ptr<ExactCompressor<T>> c;
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &A, const Cl &t, const Cl &s, double eps, int &rank, Matrix<T> &U, Matrix<T> &V) const override {
        shim::point();
        c->copy_low_rank_approximation(A, t, s, eps, rank, U, V);
        shim::point();
    }
};
// everything the library reports about the matrix, timings and thread count aside
template <typename T>
std::string stats(const HMatrix<T> &h) {
    std::ostringstream o;
    for (auto &p : get_hmatrix_information(h))
        if (p.first != "Number_of_threads" && p.first.find("walltime") == std::string::npos) o << p.first << "=" << p.second << ";";
    return o.str();
}

template <typename T>
void run_case(Trace &tr, Rng &r, int nt, const std::vector<int> &sched, bool ctl) {
    int m = r.range(5, 16), n = r.range(5, 16);
    Cl t = pick_tree(r, m, 3), s0 = pick_tree(r, n, 3);
    bool sym    = r.chance(55);
    const Cl &s = sym || r.chance(40) ? t : s0;
    HOpt o      = ropt(r);
    o.refuse    = r.chance(30) ? 0 : r.range(20, 100);
    if (sym) {
        o.sym  = is_c<T>::value && r.chance(50) ? 'H' : 'S';
        o.uplo = r.chance(50) ? 'L' : 'U';
        o.mode = r.range(2, 3);
    }
    IntOp<T> g = int_op<T>(r, t.get_size(), s.get_size(), o.sym);
    auto begin = [&](int threads) {
        shim::controlled() = ctl && threads > 1;
        shim::schedule()   = sched;
        shim::pos()        = 0;
        shim::seed()       = r.next();
        shim::limit() = threads; // sometimes fewer than what the code may expect
        omp_set_num_threads(threads + (threads > 1 && r.chance(40) ? r.range(1, 4) : 0));
    };
    auto build = [&](int threads, int &refused) {
        HMatrixTreeBuilder<T, double> b(t, s, o.eps, o.eta2 / 2., o.sym, o.uplo, -1, -1, -1);
        auto c = std::make_shared<SlowCompressor<T>>();
        c->c   = std::make_shared<ExactCompressor<T>>(g, t, s, o.salt, o.refuse);
        b.set_low_rank_generator(c);
        b.set_admissibility_condition(std::make_shared<Admis>(o.mode, o.salt, o.percent, true));
        b.set_block_tree_consistency(true);
        ClusterGen<T> cg(g, t, s);
        SlowGen<T> sg(cg);
        begin(threads);
        auto h             = std::make_unique<HMatrix<T>>(b.build(static_cast<const htool::VirtualInternalGenerator<T> &>(sg)));
        shim::controlled() = false;
        refused            = 0;
        for (auto &a : c->c->asked) refused += a.refused;
        return h;
    };
    int ref1 = 0, refn = 0;
    auto h1 = build(1, ref1);
    errors().errors = 0;
    long races0     = g_races;
    tr.begin_case();
    tr.put(Ev("case"));
    auto hn = build(nt, refn);
    HObj<T> A;
    A.g = g;
    A.t = &t;
    A.s = &s;
    A.o = o;
    A.h = std::shared_ptr<HMatrix<T>>(std::move(hn));
    auto v = A.expected();
    Ev e("let");
    // the layout and the statistics must be those of the single-threaded build
    e.s("x", "A").mat("M", v.data(), A.h->nb_rows(), A.h->nb_cols()).raw("lay", layout<T>(*h1)).raw("obs", Obs().h("A", *A.h).str()).seq("pt", t.get_permutation()).seq("ps", s.get_permutation());
    tr.put(e);
    auto info = A.h->get_hmatrix_tree_data()->m_information;
    Ev a("agree");
    a.s("what", "statistics").s("a", stats(*h1)).s("b", stats(*A.h)).i("refused", refn).i("fp", info.count("Number_of_false_positive") ? atoi(info["Number_of_false_positive"].c_str()) : -1);
    tr.put(a);
    for (int rep = 0; rep < 3; rep++) {
        char ta = rtrans(r);
        if ((ta == 'T' && o.sym == 'H') || (ta == 'C' && o.sym == 'S')) ta = 'N';
        int p = ta == 'N' ? A.h->nb_rows() : A.h->nb_cols(), q = ta == 'N' ? A.h->nb_cols() : A.h->nb_rows();
        int mu  = rep == 0 ? 1 : r.range(1, 3);
        auto x = rvec<T>(r, q * mu), y = rvec<T>(r, p * mu);
        T alpha = rscal<T>(r), beta = rscal<T>(r);
        let_m(tr, "x", x.data(), q, mu);
        let_m(tr, "y", y.data(), p, mu);
        errors().errors = 0;
        if (mu == 1) {
            begin(nt);
            openmp_internal_add_hmatrix_vector_product(ta, alpha, *A.h, x.data(), beta, y.data());
        } else { // rows
            std::vector<T> X(x.size()), Y(y.size());
            for (int i = 0; i < q; i++)
                for (int j = 0; j < mu; j++) X[size_t(i) * mu + j] = x[size_t(j) * q + i];
            for (int i = 0; i < p; i++)
                for (int j = 0; j < mu; j++) Y[size_t(i) * mu + j] = y[size_t(j) * p + i];
            begin(nt);
            openmp_internal_add_hmatrix_matrix_product_row_major(ta, 'N', alpha, *A.h, X.data(), beta, Y.data(), mu);
            for (int i = 0; i < p; i++)
                for (int j = 0; j < mu; j++) y[size_t(j) * p + i] = Y[size_t(i) * mu + j];
        }
        shim::controlled() = false;
        tr.put(mul("threads", vf::ref("A"), ta, vf::ref("x"), 'N', alpha, beta, vf::ref("y"), Obs().d("y", y.data(), p, mu).h("A", *A.h), errors().errors));
    }
    if (!ctl) { // several products at once, each called by one thread of an enclosing team
        int p = A.h->nb_rows(), q = A.h->nb_cols(), mu = r.range(1, 3);
        bool rows = r.chance(50);
        if (!rows) mu = 1;
        auto x = rvec<T>(r, q * mu);
        std::vector<std::vector<T>> out(nt, std::vector<T>(size_t(p) * mu, T(0)));
        std::vector<T> X(x.size());
        for (int i = 0; i < q; i++)
            for (int j = 0; j < mu; j++) X[size_t(i) * mu + j] = x[size_t(j) * q + i];
        begin(nt);
#pragma omp parallel num_threads(nt)
        {
            int k = omp_get_thread_num();
            if (rows)
                openmp_internal_add_hmatrix_matrix_product_row_major('N', 'N', T(1), *A.h, X.data(), T(0), out[k].data(), mu);
            else
                openmp_internal_add_hmatrix_vector_product('N', T(1), *A.h, x.data(), T(0), out[k].data());
        }
        let_m(tr, "x", x.data(), q, mu);
        for (int k = 0; k < nt; k++) {
            std::vector<T> y(size_t(p) * mu);
            for (int i = 0; i < p; i++)
                for (int j = 0; j < mu; j++) y[size_t(j) * p + i] = out[k][size_t(i) * mu + j];
            std::vector<T> z(y.size(), T(0));
            let_m(tr, "y", z.data(), p, mu);
            tr.put(mul("nested", vf::ref("A"), 'N', vf::ref("x"), 'N', T(1), T(0), vf::ref("y"), Obs().d("y", y.data(), p, mu), 0));
        }
    }
    Ev c("conflicts");
    c.i("n", g_races - races0).i("threads", nt);
    tr.put(c);
}

int main(int argc, char **argv) {
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 10), shards = argi(argc, argv, "--shards", 1);
    Trace tr(arg(argc, argv, "--out", "/tmp/trace"), int(shards));
    errors();
    Rng r(uint64_t(seed) * 977 + 10);
    std::string hist = arg(argc, argv, "--hist", "");
    if (hist.empty()) {
        for (long c = 0; c < cases; c++) {
            Rng rc(r.next());
            int nt = rc.range(2, 8);
            rc.chance(50) ? run_case<cd>(tr, rc, nt, {}, false) : run_case<double>(tr, rc, nt, {}, false);
        }
        return 0;
    }
    std::ifstream in(hist);
    for (std::string l; std::getline(in, l);) {
        std::stringstream ss(l);
        std::string w;
        std::vector<int> sched;
        if (!std::getline(ss, w, ';')) continue;
        int nt = std::stoi(w);
        while (std::getline(ss, w, ';')) sched.push_back(std::stoi(w));
        Rng rc(r.next());
        rc.chance(50) ? run_case<cd>(tr, rc, nt, sched, true) : run_case<double>(tr, rc, nt, sched, true);
    }
    return 0;
}
