// The domain decomposition layer on several MPI processes, HPDDM being a stand-in (stub/HPDDM.hpp).
#include <set>
#include "mpigen.hpp"
#include <htool/solvers/ddm.hpp>
#include <htool/solvers/geneo/coarse_operator_builder.hpp>
#include <htool/solvers/geneo/coarse_space_builder.hpp>
#include <htool/solvers/utility.hpp>
static std::string ints_json(const std::vector<int> &v) {
    std::string s = "[";
    for (size_t k = 0; k < v.size(); k++) s += (k ? "," : "") + std::to_string(v[k]);
    return s + "]";
}
static std::string dir;
static std::string fresh_file(const std::string &n) { return dir + "/" + n + std::to_string(rk); }
static std::string nested(const std::vector<std::vector<int>> &v) {
    std::vector<std::string> s;
    for (auto &x : v) s.push_back(ints_json(x));
    return list(s);
}
template <typename T>
std::vector<T> times(const std::vector<T> &A, int n, const std::vector<T> &X, int mu) {
    std::vector<T> R(size_t(n) * mu, T(0));
    for (int c = 0; c < mu; c++)
        for (int j = 0; j < n; j++)
            for (int i = 0; i < n; i++) R[size_t(c) * n + i] += A[size_t(j) * n + i] * X[size_t(c) * n + j];
    return R;
}
struct Sub { // overlapping subdomains, the same on all processes
    std::vector<std::vector<int>> ovr, c2o, nb, num; // num: own numbering (for right-hand sides only)
    std::vector<std::vector<std::vector<int>>> inter;
};
// extra: per process, positions it sees beyond its own
static Sub subdomains(Rng &r, const Cl &t, const std::vector<std::vector<int>> &extra, bool shuffle) {
    Sub s;
    auto &pt = t.get_permutation();
    std::vector<std::set<int>> in(np);
    for (int p = 0; p < np; p++) {
        auto &c = t.get_cluster_on_partition(p);
        std::vector<int> own, o;
        for (int i = 0; i < c.get_size(); i++) own.push_back(pt[c.get_offset() + i]);
        o = own;
        for (int x : extra[p]) o.push_back(pt[x]);
        if (shuffle)
            for (size_t k = o.size(); k > 1; k--) std::swap(o[k - 1], o[r.range(0, int(k) - 1)]);
        std::vector<int> c2o, num = own;
        for (int u : own) c2o.push_back(int(std::find(o.begin(), o.end(), u) - o.begin()));
        for (int u : o)
            if (std::find(own.begin(), own.end(), u) == own.end()) num.push_back(u);
        in[p].insert(o.begin(), o.end());
        s.ovr.push_back(o);
        s.c2o.push_back(c2o);
        s.num.push_back(num);
    }
    std::vector<std::vector<std::vector<int>>> common(np, std::vector<std::vector<int>>(np));
    for (int p = 0; p < np; p++)
        for (int q = p + 1; q < np; q++) {
            std::vector<int> c;
            for (int u : in[p])
                if (in[q].count(u)) c.push_back(u);
            if (shuffle)
                for (size_t k = c.size(); k > 1; k--) std::swap(c[k - 1], c[r.range(0, int(k) - 1)]);
            common[p][q] = common[q][p] = c;
        }
    for (int p = 0; p < np; p++) {
        std::vector<int> nb;
        for (int q = 0; q < np; q++)
            if (q != p && !common[p][q].empty()) nb.push_back(q);
        if (shuffle)
            for (size_t k = nb.size(); k > 1; k--) std::swap(nb[k - 1], nb[r.range(0, int(k) - 1)]);
        std::vector<std::vector<int>> I;
        for (int q : nb) {
            std::vector<int> ix;
            for (int u : common[p][q]) ix.push_back(int(std::find(s.ovr[p].begin(), s.ovr[p].end(), u) - s.ovr[p].begin()));
            I.push_back(ix);
        }
        s.nb.push_back(nb);
        s.inter.push_back(I);
    }
    return s;
}
template <typename T>
struct Ddm {
    std::shared_ptr<Cl> t;
    char sym = 'N', uplo = 'N';
    IntOp<T> g;
    Sub s;
    int n = 0, kind = 0; // 0-2: dense local solver (no overlap, added, hierarchical); 3-5: hierarchical local solver
    std::vector<double> geometry;
    int dim = 1;
    std::shared_ptr<DefaultApproximationBuilder<T, double>> a;
    std::shared_ptr<DistributedOperatorFromHMatrix<T, double>> d;
    std::shared_ptr<HMatrix<T>> block;
    DistributedOperator<T> *A = nullptr;
    std::vector<T> restricted(const std::vector<T> &X, int mu) const {
        auto &num = s.num[rk];
        std::vector<T> y(num.size() * mu);
        for (int c = 0; c < mu; c++)
            for (size_t i = 0; i < num.size(); i++) y[c * num.size() + i] = X[size_t(c) * n + num[i]];
        return y;
    }
};
// records Z and E on the way to the library
template <typename T>
struct FixedSpace : VirtualCoarseSpaceBuilder<T> {
    std::vector<T> z;
    int n, k;
    Matrix<T> build_coarse_space() override { return to_matrix(z, n, k); }
};
template <typename T>
struct Recorder : VirtualCoarseOperatorBuilder<T> {
    VirtualCoarseOperatorBuilder<T> &b;
    Matrix<T> E;
    std::vector<T> z;
    explicit Recorder(VirtualCoarseOperatorBuilder<T> &b0) : b(b0) {}
    Matrix<T> build_coarse_operator(int n, int k, T **Z) override {
        for (int j = 0; j < k; j++) z.insert(z.end(), Z[j], Z[j] + n);
        E = b.build_coarse_operator(n, k, Z);
        return E;
    }
};
template <typename T, template <class> class Loc, typename Solver>
void program(Trace &tr, Rng &r, Ddm<T> &c, Solver &solver, const std::vector<int> &numbering, const std::vector<std::string> &prog) {
    typedef HPDDM::Dense<Loc, HPDDM::LapackTR, 'G', T> Op;
    Op *op  = Op::last();
    int dof = op->getDof(), n = c.n;
    { // what was set up
        std::vector<int> nb, w;
        std::vector<std::vector<int>> inter;
        for (auto &m : op->getMap()) nb.push_back(m.first), inter.push_back(m.second);
        for (int i = 0; i < dof; i++) w.push_back(op->getScaling()[i] == 0 ? 0 : op->getScaling()[i] == 1 ? 1 : 99);
        auto D = collect(std::to_string(dof)), M = collect(ints_json(numbering)), N = collect(ints_json(nb)), I = collect(nested(inter)), W = collect(ints_json(w));
        int err = sum_all(errors().errors);
        if (!rk) {
            Ev e("setup");
            e.raw("dof", list(D)).raw("num", list(M)).raw("nb", list(N)).raw("inter", list(I)).raw("W", list(W)).i("err", err);
            tr.put(e);
        }
    }
    if (dof != int(c.s.num[rk].size())) std::abort();
    auto &opt     = *HPDDM::Option::get();
    bool local_ok = !(c.sym == 'S' && is_c<T>::value);
    for (auto &p : prog) {
        std::vector<std::string> f;
        std::istringstream is(p);
        for (std::string x; std::getline(is, x, '.');) f.push_back(x);
        errors().errors = 0;
        if (f[0] == "factor") {
            if (!local_ok) continue;
            solver.facto_one_level();
            int err = sum_all(errors().errors);
            if (!rk) {
                Ev e("factor");
                e.i("err", err);
                tr.put(e);
            }
        } else if (f[0].substr(0, 5) == "local") {
            if (!local_ok || !op->factorised()) continue;
            int mu = f[0][5] - '0';
            std::vector<T> M(size_t(dof) * dof);
            for (int j = 0; j < dof; j++)
                for (int i = 0; i < dof; i++) M[size_t(j) * dof + i] = c.g(c.s.num[rk][i], c.s.num[rk][j]);
            Rng mine(r.next() + rk);
            auto B = times(M, dof, rvec<T>(mine, dof * mu, -2, 2), mu);
            std::vector<T> X(B.size(), T(std::numeric_limits<double>::quiet_NaN())), b = B;
            op->getSolver().solve(b.data(), X.data(), (unsigned short)mu);
            auto Bs = collect(jmat(B.data(), dof, mu)), Xs = collect(jmat(X.data(), dof, mu));
            int err = sum_all(errors().errors + (b == B ? 0 : 1));
            if (!rk) {
                Ev e("local");
                e.raw("B", list(Bs)).raw("X", list(Xs)).i("err", err);
                tr.put(e);
            }
        } else if (f[0].substr(0, 6) == "coarse") {
            if (is_c<T>::value && c.sym != 'H') continue; // not addressed: see DESIGN.md
            bool beyond = f[0][6] == '1';
            FixedSpace<T> fs;
            int ni = int(c.A->get_target_partition().get_size_of_partition(rk));
            fs.n   = dof;
            Rng mine(r.next() + 17 * rk);
            fs.k = mine.range(rk == 0 ? 1 : 0, std::min(2, ni));
            fs.z.assign(size_t(dof) * fs.k, T(0));
            for (int j = 0; j < fs.k; j++)
                for (int i = 0; i < (beyond ? dof : ni); i++) fs.z[size_t(j) * dof + i] = i == j ? T(3) : i < fs.k ? (i > j ? T(1) : T(0)) : rnd<T>(mine, -1, 1);
            GeneoCoarseOperatorBuilder<T> gb(*c.A);
            Recorder<T> rec(gb);
            solver.build_coarse_space(fs, rec);
            auto Z = collect(jmat(fs.z.data(), dof, fs.k)), Zg = collect(jmat(rec.z.data(), dof, fs.k)), K = collect(std::to_string(solver.get_nevi()));
            std::vector<T> G = op->getE();
            int m            = int(std::lround(std::sqrt(double(G.size()))));
            auto Gs          = collect(jmat(G.data(), m, m));
            int err          = sum_all(errors().errors);
            if (!rk) {
                Ev e("coarse");
                e.s("size", solver.get_information("GenEO_coarse_size"));
                e.raw("Z", list(Z)).raw("Zg", list(Zg)).raw("nevi", list(K)).raw("given", list(Gs)).mat("E", rec.E.data(), rec.E.nb_rows(), rec.E.nb_cols()).i("err", err);
                tr.put(e);
            }
        } else if (f[0] == "infos") {
            std::string ops;
            for (int z = r.range(1, 4); z > 0; z--) {
                std::string k = r.pick(std::vector<std::string>{"first", "second"});
                bool add      = r.chance(60);
                int v         = r.range(0, 9);
                add ? solver.add_infos(k, std::to_string(v)) : solver.set_infos(k, std::to_string(v));
                ops += (ops.empty() ? "" : ",") + std::string("{\"k\":\"") + k + "\",\"add\":" + (add ? "true" : "false") + ",\"v\":" + std::to_string(v) + "}";
            }
            std::string file = fresh_file("infos");
            solver.save_infos(file, std::ios_base::trunc, " := ");
            auto inf = solver.get_information();
            if (!rk) {
                std::map<std::string, std::string> saved;
                std::ifstream in(file);
                for (std::string l; std::getline(in, l);) {
                    auto q = l.find(" := ");
                    if (q != std::string::npos) saved[l.substr(0, q)] = l.substr(q + 4);
                }
                Ev e("infos");
                auto get = [&](const char *k) { return inf.count(k) ? inf[k] : std::string("-"); };
                e.raw("ops", "[" + ops + "]").s("first", get("first")).s("second", get("second")).b("saved", saved == inf);
                tr.put(e);
            }
        } else {
            int mu           = f[3][0] - '0';
            std::string how = f[1], corr = f[2];
            if (!local_ok) how = "none";
            if (is_c<T>::value && c.sym != 'H') corr = "none";
            if (how == "none") corr = "none";
            opt["schwarz_method"] = how == "none" ? HPDDM_SCHWARZ_METHOD_NONE : how == "ras" ? HPDDM_SCHWARZ_METHOD_RAS : HPDDM_SCHWARZ_METHOD_ASM;
            if (how == "ras" && r.chance(25)) opt.remove("schwarz_method"); // what is not set is the restricted method
            int krylov           = r.range(0, 8);
            opt["krylov_method"] = krylov;
            opt.remove("schwarz_coarse_correction");
            if (corr != "none") opt["schwarz_coarse_correction"] = corr == "additive" ? HPDDM_SCHWARZ_COARSE_CORRECTION_ADDITIVE : corr == "deflated" ? HPDDM_SCHWARZ_COARSE_CORRECTION_DEFLATED : HPDDM_SCHWARZ_COARSE_CORRECTION_BALANCED;
            auto X = rvec<T>(r, n * mu, -2, 2), B = times(c.g.A, n, X, mu), P = rvec<T>(r, n * mu, -2, 2);
            std::vector<T> b = B, x(B.size(), r.chance(50) ? T(std::numeric_limits<double>::quiet_NaN()) : T(5));
            HPDDM::Watch::on_solve() = [&](const void *rhs, int m) {
                auto Y = collect(jmat((const T *)rhs, dof, m));
                if (!rk) {
                    Ev e("rhs");
                    e.mat("B", B, n, mu).raw("Y", list(Y));
                    tr.put(e);
                }
                auto in = c.restricted(P, mu);
                std::vector<T> out(in.size() + 1, T(std::numeric_limits<double>::quiet_NaN()));
                op->GMV(in.data(), out.data(), mu);
                auto Q = collect(jmat(out.data(), dof, mu));
                if (!rk) {
                    Ev e("apply");
                    e.mat("X", P, n, mu).raw("Y", list(Q));
                    tr.put(e);
                }
            };
            mu == 1 && r.chance(50) ? solver.solve(b.data(), x.data()) : solver.solve(b.data(), x.data(), mu);
            auto Xs   = collect(jmat(x.data(), n, mu));
            int err   = sum_all(errors().errors);
            bool kept = sum_all(b == B ? 0 : 1) == 0;
            if (!rk) {
                typedef typename HPDDM::Schwarz<T>::Prcndtnr Q;
                Ev e("solve");
                e.mat("B", B, n, mu).raw("X", list(Xs)).b("kept", kept).i("err", err);
                e.s("type", op->getType() == Q::NO ? "None" : op->getType() == Q::GE ? "RAS" : "ASM").s("want", how == "none" ? "None" : how == "ras" ? "RAS" : "ASM");
                auto inf = solver.get_information();
                auto get = [&](const char *k) { return inf.count(k) ? inf[k] : std::string("-"); };
                auto mean = get("DDM_local_coarse_size_mean");
                if (mean != "-") mean = std::to_string(std::lround(std::stod(mean) * np * 100));
                std::string l;
                for (auto &x : {get("Nb_subdomains"), get("Precond"), get("krylov_method"), get("htool_solver"), get("Coarse_correction")}) l += (l.empty() ? "\"" : ",\"") + x + "\"";
                e.raw("info", "[" + l + "]").s("cmin", how == "none" ? "-" : get("DDM_local_coarse_size_min")).s("cmax", how == "none" ? "-" : get("DDM_local_coarse_size_max")).s("cmean", how == "none" ? "-" : mean);
                e.i("krylov", krylov);
                e.s("method", how == "none" ? "None" : how == "ras" ? "RAS" : "ASM").s("corr", corr == "none" ? "None" : corr == "additive" ? "Additive" : corr == "deflated" ? "Deflated" : "Balanced");
                tr.put(e);
            }
        }
    }
}
template <typename T>
void put_layout(Trace &tr, const Ddm<T> &c) {
    if (rk) return;
    std::vector<int> to, ts;
    for (auto x : c.t->get_clusters_on_partition()) to.push_back(x->get_offset()), ts.push_back(x->get_size());
    std::vector<std::string> I;
    for (auto &x : c.s.inter) I.push_back(nested(x));
    Ev e("layout");
    e.i("np", np).i("n", c.n).seq("to", to).seq("ts", ts).seq("pt", c.t->get_permutation()).mat("G", c.g.A, c.n, c.n).c("sym", c.sym).c("uplo", c.uplo).i("kind", c.kind);
    e.raw("ovr", nested(c.s.ovr)).raw("nb", nested(c.s.nb)).raw("inter", list(I));
    tr.put(e);
}
// the operator, then a solver object of the kind asked for
template <typename T>
void run(Trace &tr, Rng &r, Ddm<T> &c, std::vector<std::vector<int>> extra, const std::vector<std::string> &prog) {
    c.n      = c.t->get_size();
    c.sym    = r.chance(40) ? 'N' : !is_c<T>::value ? 'S' : r.chance(80) ? 'H' : 'S';
    c.kind   = r.range(0, 5);
    if (c.sym != 'N') c.uplo = c.kind < 3 || r.chance(50) ? 'L' : 'U';
    c.g = int_op<T>(r, c.n, c.n, c.sym, -1, 1, r.range(10, 60), true);
    c.g.k = 0; // content without structure: the default compressor never runs (eta = 0)
    c.g.P.clear();
    c.g.Q.clear();
    if (c.kind % 3 == 0)
        for (auto &x : extra) x.clear();
    if (c.kind % 3 == 2)
        for (auto &x : extra)
            if (c.t->get_size() < 2) return;
    c.s = subdomains(r, *c.t, extra, c.kind % 3 != 0);
    if (c.kind % 3 == 2)
        for (auto &x : c.s.num)
            if (x.size() < 2) return; // the local tree is cut in two
    if (c.sym != 'N' && is_c<T>::value && c.sym == 'S' && c.kind >= 3) return;
    bool internal = r.chance(50);
    UserGen<T> ug(c.g);
    ClusterGen<T> cg(c.g, *c.t, *c.t);
    Rng mine(r.next());
    const VirtualInternalGenerator<T> &ig = cg;
    const VirtualGenerator<T> &vg         = ug;
    errors().errors = 0;
    const HMatrix<T> *diag;
    if (r.chance(60)) {
        c.a = internal ? std::make_shared<DefaultApproximationBuilder<T, double>>(ig, *c.t, *c.t, EXACT, 0., c.sym, c.uplo, MPI_COMM_WORLD) : std::make_shared<DefaultApproximationBuilder<T, double>>(vg, *c.t, *c.t, EXACT, 0., c.sym, c.uplo, MPI_COMM_WORLD);
        c.A = &c.a->distributed_operator, diag = c.a->block_diagonal_hmatrix;
    } else {
        HOpt o = ropt(mine);
        HMatrixTreeBuilder<T, double> b(*c.t, *c.t, EXACT, o.eta2 / 2., c.sym, c.uplo, -1, rk, rk);
        b.set_low_rank_generator(std::make_shared<ExactCompressor<T>>(c.g, *c.t, *c.t, o.salt, 100));
        b.set_admissibility_condition(std::make_shared<Admis>(o.mode, o.salt, o.percent, true));
        c.d = internal ? std::make_shared<DistributedOperatorFromHMatrix<T, double>>(ig, *c.t, *c.t, b, MPI_COMM_WORLD) : std::make_shared<DistributedOperatorFromHMatrix<T, double>>(vg, *c.t, *c.t, b, MPI_COMM_WORLD);
        c.A = &c.d->distributed_operator, diag = c.d->block_diagonal_hmatrix;
    }
    if (sum_all(diag ? 1 : 0) < np && c.kind % 3 != 2) return;
    if (diag) c.block = std::make_shared<HMatrix<T>>(*diag);
    tr.begin_case();
    put_layout(tr, c);
    c.dim      = r.range(2, 3);
    c.geometry = points(r, c.n, c.dim, r.range(0, 7), 10);
    auto &s    = c.s;
    omp_set_num_threads(r.range(1, 2));
    switch (c.kind) {
    case 0: {
        DDMSolverWithDenseLocalSolver<T> b(*c.A, *c.block);
        program<T, HPDDM::LapackTRSub>(tr, r, c, b.solver, b.local_to_global_numbering, prog);
        break;
    }
    case 1: {
        DDMSolverWithDenseLocalSolver<T> b(*c.A, *c.block, vg, s.ovr[rk], s.c2o[rk], s.nb[rk], s.inter[rk]);
        program<T, HPDDM::LapackTRSub>(tr, r, c, b.solver, b.local_to_global_numbering, prog);
        break;
    }
    case 2: {
        DDMSolverWithDenseLocalSolver<T> b(*c.A, s.ovr[rk], s.c2o[rk], s.nb[rk], s.inter[rk], vg, c.dim, c.geometry.data(), EXACT, 0.);
        program<T, HPDDM::LapackTRSub>(tr, r, c, b.solver, b.local_to_global_numbering, prog);
        break;
    }
    case 3: {
        DDMSolverBuilder<T> b(*c.A, *c.block);
        program<T, HPDDMCustomLocalSolver>(tr, r, c, b.solver, b.local_to_global_numbering, prog);
        break;
    }
    case 4: {
        DDMSolverBuilder<T> b(*c.A, *c.block, vg, s.ovr[rk], s.c2o[rk], s.nb[rk], s.inter[rk]);
        program<T, HPDDMCustomLocalSolver>(tr, r, c, b.solver, b.local_to_global_numbering, prog);
        break;
    }
    default: {
        DDMSolverBuilder<T> b(*c.A, s.ovr[rk], s.c2o[rk], s.nb[rk], s.inter[rk], vg, c.dim, c.geometry.data(), EXACT, 0.);
        program<T, HPDDMCustomLocalSolver>(tr, r, c, b.solver, b.local_to_global_numbering, prog);
    }
    }
}
template <typename T>
void random_case(Trace &tr, Rng &r) {
    Ddm<T> c;
    int n = std::max(np, r.chance(10) ? r.range(15, 32) : r.range(2, 14));
    c.t   = part_tree(r, n, r.chance(60));
    std::vector<std::vector<int>> extra(np);
    int pc = r.chance(20) ? 0 : r.chance(20) ? 100 : r.range(5, 60);
    for (int p = 0; p < np; p++) {
        auto &x = c.t->get_cluster_on_partition(p);
        for (int i = 0; i < n; i++)
            if ((i < x.get_offset() || i >= x.get_offset() + x.get_size()) && r.chance(pc)) extra[p].push_back(i);
    }
    std::vector<std::string> prog;
    bool f = false, k = false;
    for (int z = r.range(3, 6); z > 0 && suite == "S04"; z--) { // local problems
        if (!f) prog.push_back("factor"), f = true;
        else prog.push_back("local" + std::to_string(r.range(1, 3)));
    }
    if (suite == "S03") { // coarse level
        if (r.chance(50)) prog.push_back("factor"), f = true;
        for (int z = r.range(1, 2); z > 0; z--) prog.push_back("coarse" + std::to_string(r.range(0, 1)));
        if (!f) prog.push_back("factor");
        prog.push_back(std::string("solve.") + (r.chance(50) ? "ras." : "asm.") + r.pick(std::vector<std::string>{"additive", "deflated", "balanced"}) + "." + std::to_string(r.range(1, 2)));
    }
    if (prog.empty())
    for (int z = r.range(3, 6); z > 0; z--) {
        int o          = r.range(0, 9);
        std::string mu = std::to_string(r.some(1, 3));
        if (r.chance(8)) prog.push_back("infos");
        else if (o < 3 && !f) prog.push_back("factor"), f = true;
        else if (o < 4 && f) prog.push_back("local" + mu);
        else if (o < 6 && !k) prog.push_back("coarse" + std::to_string(r.range(0, 1))), k = true;
        else if (!f || r.chance(20)) prog.push_back("solve.none.none." + mu);
        else prog.push_back(std::string("solve.") + (r.chance(50) ? "ras" : "asm") + "." + (k ? r.pick(std::vector<std::string>{"none", "additive", "deflated", "balanced"}) : "none") + "." + mu);
    }
    run(tr, r, c, extra, prog);
}
static std::vector<int> ints(const std::string &s) {
    std::vector<int> v;
    std::istringstream is(s);
    for (std::string x; std::getline(is, x, ',');)
        if (!x.empty()) v.push_back(std::stoi(x));
    return v;
}
// a behaviour of MCDdm: part sizes; what each process sees beyond its part; calls
template <typename T>
void replay(Trace &tr, Rng &r, const std::vector<std::string> &f) {
    Ddm<T> c;
    c.t = std::make_shared<Cl>(tree_with_parts(r, ints(f[0])));
    std::vector<std::vector<int>> extra;
    std::istringstream is(f[1]);
    for (std::string x; std::getline(is, x, '|');) {
        extra.push_back(ints(x));
        for (int &v : extra.back()) v--;
    }
    extra.resize(np);
    std::vector<std::string> prog;
    std::istringstream ps(f[2]);
    for (std::string x; std::getline(ps, x, ',');)
        if (!x.empty()) prog.push_back(x);
    run(tr, r, c, extra, prog);
}

// ---- coarse spaces from eigenvalue problems with known pairs (one process)
template <typename T>
std::vector<T> product(const std::vector<T> &A, const std::vector<T> &B, int n) { return times(A, n, B, n); }
template <typename T>
std::vector<T> adjoint(const std::vector<T> &A, int n) {
    std::vector<T> B(A.size());
    for (int j = 0; j < n; j++)
        for (int i = 0; i < n; i++) B[size_t(j) * n + i] = vf::cj(A[size_t(i) * n + j]);
    return B;
}
// unimodular W with its inverse; rows < in only use columns < in
template <typename T>
void unimodular(Rng &r, int n, int in, std::vector<T> &W, std::vector<T> &V) {
    W.assign(size_t(n) * n, T(0));
    for (int i = 0; i < n; i++) W[size_t(i) * n + i] = T(1);
    V = W;
    for (int k = r.range(0, n + 1); k > 0; k--) {
        int a = r.range(0, n - 1), b = r.range(0, n - 1);
        if (a == b || (a < in && b >= in)) continue;
        T l = rnd<T>(r, -1, 1);
        for (int j = 0; j < n; j++) W[size_t(j) * n + a] += l * W[size_t(j) * n + b]; // row a += l row b
        for (int i = 0; i < n; i++) V[size_t(b) * n + i] -= l * V[size_t(a) * n + i]; // column b -= l column a
    }
}
template <typename T>
void space_case(Trace &tr, Rng &r) {
    int n = r.range(2, 7), in = r.chance(40) ? n : r.range(1, n);
    char sym = r.chance(40) ? 'N' : is_c<T>::value ? 'H' : (r.chance(70) ? 'S' : 'H'), uplo = "LU"[r.range(0, 1)];
    std::vector<T> W, V, U, Ui;
    unimodular<T>(r, n, in, W, V);
    if (sym == 'N') {
        std::vector<T> X, Y;
        unimodular<T>(r, n, in, X, Y);
        U = adjoint(X, n); // columns < in only use rows < in
    } else
        U = adjoint(W, n);
    std::vector<int> al(n), be(n), ga(n, 0), mod(n); // mod: squared modulus of the ratio, times 36
    std::vector<int> used;
    bool inf = false, turns = sym == 'N' && !is_c<T>::value && r.chance(40);
    for (int i = 0; i < n; i++) {
        bool pair = turns && i + 1 < in && r.chance(50);
        for (;;) {
            al[i] = i < in ? r.range(pair ? 0 : 1, 12) * (r.chance(30) ? -1 : 1) : 0;
            be[i] = r.range(1, 3);
            ga[i] = pair ? r.range(1, 8) : 0;
            if (!pair && sym == 'N' && i < in && !inf && r.chance(8)) be[i] = 0;
            mod[i] = be[i] ? (al[i] * al[i] + ga[i] * ga[i]) * (36 / (be[i] * be[i])) : 1 << 30;
            if (i >= in || std::find(used.begin(), used.end(), mod[i]) == used.end()) {
                used.push_back(mod[i]);
                inf = inf || !be[i];
                break;
            }
        }
        if (pair) i++, al[i] = al[i - 1], be[i] = be[i - 1], ga[i] = -ga[i - 1], mod[i] = mod[i - 1]; // conjugate ratios
    }
    std::string P;
    for (int i = 0; i < n; i++) P += (i ? "," : "") + std::string("{\"a\":") + std::to_string(al[i]) + ",\"b\":" + std::to_string(be[i]) + ",\"c\":" + std::to_string(ga[i]) + "}";
    std::vector<T> DA = W, DB = W;
    for (int j = 0; j < n; j++)
        for (int i = 0; i < n; i++) {
            DA[size_t(j) * n + i] *= T(al[i]), DB[size_t(j) * n + i] *= T(be[i]);
            // row i of the 2x2 block [a c; -c a]
            if (ga[i]) DA[size_t(j) * n + i] += T(ga[i]) * W[size_t(j) * n + (ga[i] > 0 ? i + 1 : i - 1)];
        }
    auto A = product(U, DA, n), B = product(U, DB, n);
    for (auto &M : {A, B})
        for (auto &v : M)
            if (std::abs(v) > 2000) return;
    for (auto &v : V)
        if (std::abs(v) > 60) return;
    int nu = r.range(0, in), t = 0, s = 2;
    bool thr = r.chance(50);
    if (thr) t = 2 * r.range(0, 12) + 1, s = 4, nu = 0; // (2k+1)/4 is no ratio with denominator 1..3
    if (!thr && nu > 0) { // a pair is taken as a whole
        int above = 0, upto = 0;
        auto s2   = mod;
        std::sort(s2.rbegin(), s2.rend());
        for (int v : mod) above += v > s2[size_t(nu) - 1], upto += v >= s2[size_t(nu) - 1];
        if (upto - above > 1 && s2[size_t(nu) - 1] > 0) nu = upto;
    }
    // the vectors do not depend on the units of the two matrices
    int ua = r.pick(std::vector<int>{0, 0, -56, 40}), ub = r.pick(std::vector<int>{0, 0, -56, 40});
    double threshold = std::ldexp(double(t) / s, ua - ub), wa = std::ldexp(1., ua), wb = std::ldexp(1., ub);
    // the operator as given: whole subdomain, its own unknowns only, or hierarchical; what is not to be used is arbitrary
    auto given = A, Bg = B;
    for (int j = 0; j < n; j++)
        for (int i = 0; i < n; i++) {
            if (i >= in || j >= in) given[size_t(j) * n + i] = rnd<T>(r, -9, 9);
            bool other = sym != 'N' && (uplo == 'L' ? i < j : i > j);
            if (other) Bg[size_t(j) * n + i] = rnd<T>(r, -9, 9);
            if (other && i < in && j < in) given[size_t(j) * n + i] = rnd<T>(r, -9, 9);
        }
    bool whole = r.chance(50);
    int m      = whole ? n : in;
    std::vector<T> gm(size_t(m) * m);
    for (int j = 0; j < m; j++)
        for (int i = 0; i < m; i++) gm[size_t(j) * m + i] = given[size_t(j) * n + i] * wa;
    for (auto &v : Bg) v *= wb;
    Matrix<T> Bm = to_matrix(Bg, n, n), Z;
    typedef GeneoCoarseSpaceDenseBuilder<T> G;
    bool hm = r.chance(40);
    auto go = [&](G g) {
        VirtualCoarseSpaceBuilder<T> &v = g;
        Z = v.build_coarse_space();
        if (r.chance(30)) Z = v.build_coarse_space(); // once more: the same
    };
    if (!hm) {
        Matrix<T> Am = to_matrix(gm, m, m);
        go(thr ? G::GeneoWithThreshold(in, n, Am, Bm, sym, uplo, threshold) : G::GeneoWithNu(in, n, Am, Bm, sym, uplo, nu));
    } else {
        IntOp<T> g;
        g.m = g.n = m;
        g.k = 0;
        g.A.assign(size_t(m) * m, T(0));
        Cl c = pick_tree(r, m);
        // whole: in the user's numbering; own unknowns: in the tree's
        for (int j = 0; j < m; j++)
            for (int i = 0; i < m; i++) {
                T v = i < in && j < in ? A[size_t(j) * n + i] * wa : T(0);
                if (m == n) g.A[size_t(j) * m + i] = v;
                else g.A[size_t(c.get_permutation()[j]) * m + c.get_permutation()[i]] = v;
            }
        HOpt o = ropt(r);
        if (sym != 'N' && (is_c<T>::value ? sym == 'H' : true)) o.sym = sym, o.uplo = uplo;
        auto h = build_h<T>(c, c, g, o);
        go(thr ? G::GeneoWithThreshold(in, n, *h.h, Bm, sym, uplo, threshold) : G::GeneoWithNu(in, n, *h.h, Bm, sym, uplo, nu));
    }
    const double close = sizeof(double) == 4 ? 1e-5 : 1e-8; // squared relative distance
    // columns as multiples of the known vectors
    int k = Z.nb_cols();
    std::vector<T> z(size_t(Z.nb_rows()) * k, T(0));
    if (Z.nb_rows() == n)
        for (int j = 0; j < k; j++) {
            double best = 1e300;
            if (j + 1 < k) { // two vectors that span those of a pair: Z = V C
                for (int v = 0; v + 1 < n; v++) {
                    if (ga[v] <= 0) continue;
                    const T *p = &V[size_t(v) * n], *q = p + n;
                    T pp(0), pq(0), qq(0), c[4];
                    for (int i = 0; i < in; i++) pp += p[i] * p[i], pq += p[i] * q[i], qq += q[i] * q[i];
                    T det = pp * qq - pq * pq;
                    double res = 0, zz = 0;
                    for (int m = 0; m < 2; m++) {
                        T a(0), b(0);
                        for (int i = 0; i < in; i++) a += p[i] * Z(i, j + m), b += q[i] * Z(i, j + m);
                        c[m] = (qq * a - pq * b) / det, c[2 + m] = (pp * b - pq * a) / det;
                        for (int i = 0; i < in; i++) res += std::norm(Z(i, j + m) - c[m] * p[i] - c[2 + m] * q[i]), zz += std::norm(Z(i, j + m));
                    }
                    T dc = c[0] * c[3] - c[1] * c[2]; // V = Z C^-1
                    if (!(res / zz < close * close) || std::abs(dc) < 1e-9) continue;
                    best = res / zz;
                    for (int i = 0; i < n; i++) {
                        z[size_t(j) * n + i]     = (Z(i, j) * c[3] - Z(i, j + 1) * c[2]) / dc;
                        z[size_t(j + 1) * n + i] = (Z(i, j + 1) * c[0] - Z(i, j) * c[1]) / dc;
                    }
                }
                if (best < close) {
                    j++;
                    continue;
                }
            }
            for (int v = 0; v < n; v++) {
                T a(0);
                double b = 0, zz = 0, res = 0;
                for (int i = 0; i < in; i++) a += vf::cj(V[size_t(v) * n + i]) * Z(i, j), b += std::norm(V[size_t(v) * n + i]), zz += std::norm(Z(i, j));
                if (b == 0 || std::abs(a) == 0) continue;
                a /= b;
                for (int i = 0; i < in; i++) res += std::norm(Z(i, j) - a * V[size_t(v) * n + i]);
                if (res / zz >= best) continue;
                best = res / zz;
                for (int i = 0; i < n; i++) z[size_t(j) * n + i] = Z(i, j) / a;
            }
            if (!(best < close))
                for (int i = 0; i < n; i++) z[size_t(j) * n + i] = T(0.5);
        }
    tr.begin_case();
    Ev e("space");
    e.mat("A", A, n, n).mat("B", B, n, n).mat("V", V, n, n).raw("P", "[" + P + "]").i("inside", in).i("nu", nu).i("t", t).i("s", s).mat("Z", z, Z.nb_rows(), k).c("sym", sym).c("uplo", uplo).b("whole", whole).b("hm", hm).i("ua", ua).i("ub", ub);
    tr.put(e);
}
int main(int argc, char **argv) {
    int prov = 0;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_FUNNELED, &prov);
    MPI_Comm_rank(MPI_COMM_WORLD, &rk);
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    suite      = arg(argc, argv, "--suite", "S02");
    long seed  = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 50);
    int shards = int(argi(argc, argv, "--shards", 1));
    std::string out = arg(argc, argv, "--out", "/tmp/d_ddm"), hist = arg(argc, argv, "--hist", "");
    dir = arg(argc, argv, "--dir", "/tmp");
    omp_set_dynamic(0);
    errors();
    {
        Trace tr(rk ? out + ".rank" + std::to_string(rk) : out, rk ? 1 : shards);
        Rng top(uint64_t(seed) * 1313 + np);
        for (long k = 0; k < cases; k++) {
            Rng r(top.next());
            if (suite == "space") k % 2 ? space_case<double>(tr, r) : space_case<cd>(tr, r);
            else k % 2 ? random_case<double>(tr, r) : random_case<cd>(tr, r);
        }
        if (!hist.empty()) {
            std::ifstream h(hist);
            long n = 0;
            for (std::string l; std::getline(h, l);) {
                std::vector<std::string> f;
                std::istringstream is(l);
                for (std::string x; std::getline(is, x, ';');) f.push_back(x);
                if (f.size() < 3 || int(ints(f[0]).size()) != np) continue;
                int tot = 0;
                for (int x : ints(f[0])) tot += x;
                if (tot < 2) continue;
                Rng r(top.next());
                n++ % 2 ? replay<double>(tr, r, f) : replay<cd>(tr, r, f);
            }
        }
        if (rk) std::remove((out + ".rank" + std::to_string(rk) + ".0.ndjson").c_str());
    }
    MPI_Finalize();
    return 0;
}
