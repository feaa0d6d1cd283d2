// Block structure and assembly (B01-B05).
#include "hgen.hpp"
#include <omp.h>
using namespace vf;
using namespace htool;

template <typename T>
struct Setup {
    std::unique_ptr<Cl> t_own, s_own;
    const Cl *t, *s;
    Flat ft, fs;
    IntOp<T> g;
};
struct Cfg {
    char sym, uplo;
    int tp, sp, mint, mins, mode, percent, eta2, epsE, reqrank, refuse, threads;
    bool cons, user, db;
    unsigned salt;
};

template <typename T>
using Builder = HMatrixTreeBuilder<T, double>;

template <typename T>
void one_build(Trace &tr, Setup<T> &S, const Cfg &c, Builder<T> *reused, std::shared_ptr<ExactCompressor<T>> comp, std::shared_ptr<Admis> adm, int nth) {
    std::unique_ptr<Builder<T>> own;
    Builder<T> *b = reused;
    if (!b) {
        own.reset(new Builder<T>(*S.t, *S.s, c.epsE * 1e-6, c.eta2 / 2., c.sym, c.uplo, c.reqrank, c.tp, c.sp));
        b = own.get();
    }
    auto dbg = std::make_shared<DenseBlocks<T>>(S.g, *S.t, *S.s);
    b->set_low_rank_generator(comp);
    b->set_admissibility_condition(adm);
    b->set_minimal_source_depth(c.mins);
    b->set_minimal_target_depth(c.mint);
    b->set_block_tree_consistency(c.cons);
    b->set_dense_blocks_generator(c.db ? dbg : nullptr);
    comp->asked.clear();
    UserGen<T> ug(S.g);
    ClusterGen<T> cg(S.g, *S.t, *S.s);
    omp_set_num_threads(c.threads);
    HMatrix<T> h = c.user ? b->build(static_cast<const VirtualGenerator<T> &>(ug)) : b->build(static_cast<const VirtualInternalGenerator<T> &>(cg));

    std::vector<const HMatrix<T> *> nodes{&h};
    std::vector<int> parent{0}, ti, si, nk, kind, sym, rank, admv;
    for (size_t k = 0; k < nodes.size(); k++)
        for (auto &ch : nodes[k]->get_children()) {
            nodes.push_back(ch.get());
            parent.push_back(int(k) + 1);
        }
    std::map<const HMatrix<T> *, int> idx;
    std::string content = "[", mats;
    std::vector<int> leaves;
    std::string syms = "[";
    for (size_t k = 0; k < nodes.size(); k++) {
        auto n  = nodes[k];
        idx[n]  = int(k) + 1;
        auto it = S.ft.index.find(&n->get_target_cluster()), is = S.fs.index.find(&n->get_source_cluster());
        ti.push_back(it == S.ft.index.end() ? 0 : it->second);
        si.push_back(is == S.fs.index.end() ? 0 : is->second);
        nk.push_back(int(n->get_children().size()));
        kind.push_back(n->is_leaf() ? (n->is_dense() ? 1 : n->is_low_rank() ? 2 : 3) : (n->is_hierarchical() && !n->get_dense_data() && !n->get_low_rank_data() ? 0 : 3));
        rank.push_back(n->is_leaf() ? n->get_rank() : -1);
        admv.push_back(adm->ComputeAdmissibility(n->get_target_cluster(), n->get_source_cluster(), c.eta2 / 2.));
        syms += std::string(k ? "," : "") + "[\"" + n->get_symmetry() + "\",\"" + n->get_UPLO() + "\",\"" + n->get_symmetry_for_leaves() + "\",\"" + n->get_UPLO_for_leaves() + "\"]";
        if (n->is_leaf()) {
            leaves.push_back(int(k) + 1);
            auto v = leaf_content<T>(*n);
            mats += (mats.empty() ? "" : ",") + jmat(v.data(), n->get_target_cluster().get_size(), n->get_source_cluster().get_size());
        }
    }
    auto lv = get_leaves_from(h);
    std::vector<int> l1, l2;
    for (auto p : lv.first) l1.push_back(idx.count(p) ? idx[p] : 0);
    for (auto p : lv.second) l2.push_back(idx.count(p) ? idx[p] : 0);
    std::sort(l1.begin(), l1.end());
    std::sort(l2.begin(), l2.end());
    std::vector<std::vector<int>> asked;
    for (auto &a : comp->asked) asked.push_back({S.ft.index.count(a.t) ? S.ft.index[a.t] : 0, S.fs.index.count(a.s) ? S.fs.index[a.s] : 0, qs(a.eps, 1e6), a.rank, a.refused});
    auto info = h.get_hmatrix_tree_data()->m_information;
    int fp    = info.count("Number_of_false_positive") ? atoi(info["Number_of_false_positive"].c_str()) : -1;
    Ev e("build");
    e.i("nth", nth).c("sym", c.sym).c("uplo", c.uplo).i("tp", c.tp).i("sp", c.sp).i("mint", c.mint).i("mins", c.mins).i("mode", c.mode).i("eta2", c.eta2).i("eps", c.epsE).i("reqrank", c.reqrank).i("threads", c.threads).b("cons", c.cons).b("user", c.user).b("db", c.db);
    e.seq("parent", parent).seq("t", ti).seq("s", si).seq("nk", nk).seq("kind", kind).seq("rank", rank).seq("adm", admv).raw("flags", syms + "]").seq("leaves", leaves).seq("l1", l1).seq("l2", l2);
    e.raw("content", "[" + mats + "]").raw("asked", jseq(asked)).raw("gens", jseq(c.user ? ug.calls : cg.calls)).raw("dense", jseq(dbg->calls)).i("ndense", dbg->ncalls).i("fp", fp);
    tr.put(e);
    tr.add_weight(40L * long(leaves.size()) * long(leaves.size()) / 4);
}

template <typename T>
void run_case(Trace &tr, Rng &r, const std::string &suite) {
    Setup<T> S;
    int dim       = r.range(1, 3);
    bool same     = r.chance(60);
    int parts     = r.pick(std::vector<int>{1, 2, 2, 3, 4, 5});
    int nt        = r.range(std::max(3, parts), 24);
    int mcs       = r.pick(std::vector<int>{1, 2, 2, 3, 4});
    int nch       = r.pick(std::vector<int>{2, 2, 2, 3, 4});
    bool user     = r.chance(35);
    int kind      = r.range(0, 7);
    bool radii    = r.chance(30);
    S.t_own.reset(new Cl(good_tree(r, nt, dim, mcs, nch, parts, user, kind, 10, radii)));
    S.t = S.t_own.get();
    if (same)
        S.s = S.t;
    else {
        int ns = r.range(3, 22);
        int sparts = r.chance(60) ? std::min(ns, int(S.t->get_clusters_on_partition().size())) : r.range(1, 3);
        S.s_own.reset(new Cl(good_tree(r, ns, dim, r.pick(std::vector<int>{1, 2, 3, 5}), r.chance(70) ? nch : 2, sparts, r.chance(35), r.range(0, 7), 10, r.chance(30))));
        S.s = S.s_own.get();
    }
    S.ft     = flatten(*S.t, dim);
    S.fs     = flatten(*S.s, dim);
    int np   = int(S.t->get_clusters_on_partition().size());
    Cfg c;
    c.sym    = same && r.chance(60) ? (is_c<T>::value ? r.pick(std::vector<char>{'S', 'H'}) : 'S') : 'N';
    c.uplo   = c.sym == 'N' ? 'N' : r.pick(std::vector<char>{'L', 'U'});
    S.g      = int_op<T>(r, S.t->get_size(), S.s->get_size(), c.sym, -9, 9, r.pick(std::vector<int>{20, 60, 100}));
    c.tp     = -1;
    c.sp     = -1;
    c.mint   = r.chance(70) ? 0 : r.range(1, 3);
    c.mins   = r.chance(70) ? 0 : r.range(1, 3);
    c.mode   = r.pick(std::vector<int>{0, 0, 1, 2, 2, 3, 4});
    if (c.sym != 'N' && (c.mode == 1 || c.mode == 4) && r.chance(70)) c.mode = 2;
    c.percent = r.pick(std::vector<int>{20, 50, 80});
    c.eta2    = r.pick(std::vector<int>{1, 2, 4, 8, 20});
    c.epsE    = r.pick(std::vector<int>{1, 10, 1000, 10000});
    c.reqrank = r.pick(std::vector<int>{-1, -1, 1, 3});
    c.refuse  = suite == "B05" ? r.pick(std::vector<int>{30, 60, 100}) : r.pick(std::vector<int>{0, 0, 30});
    c.threads = r.pick(std::vector<int>{1, 2, 4, 7});
    c.cons    = c.sym != 'N' || r.chance(60);
    c.user    = r.chance(50);
    c.db      = r.chance(suite == "B04" ? 50 : 25);
    c.salt    = unsigned(r.next());
    tr.begin_case();
    {
        Ev e("trees");
        e.b("same", same).raw("T", flat_json(S.ft, *S.t, dim)).raw("S", flat_json(S.fs, *S.s, dim)).mat("G", S.g.A, S.g.m, S.g.n).i("parts", np);
        tr.put(e);
    }
    auto comp = std::make_shared<ExactCompressor<T>>(S.g, *S.t, *S.s, c.salt, c.refuse);
    auto adm  = std::make_shared<Admis>(c.mode, c.salt * 7 + 1, c.percent, c.sym != 'N');
    one_build<T>(tr, S, c, nullptr, comp, adm, 0);
    if (suite == "B05" || r.chance(15)) { // one builder, used again and again
        Builder<T> b(*S.t, *S.s, c.epsE * 1e-6, c.eta2 / 2., c.sym, c.uplo, c.reqrank, c.tp, c.sp);
        for (int k = 1; k <= 3; k++) {
            c.threads = r.pick(std::vector<int>{1, 2, 4, 7});
            comp->salt += unsigned(k);
            comp->refuse_percent = r.pick(std::vector<int>{0, 30, 60, 100});
            one_build<T>(tr, S, c, &b, comp, adm, k);
        }
    }
    if (suite == "B03" || r.chance(20)) {
        bool symp = c.sym != 'N' && r.chance(60) && S.s->get_clusters_on_partition().size() == size_t(np);
        for (int p = 0; p < np; p++) {
            c.tp      = p;
            c.sp      = symp ? p : -1;
            c.threads = r.pick(std::vector<int>{1, 3});
            one_build<T>(tr, S, c, nullptr, comp, adm, 100 + p);
        }
        Ev e("assembled");
        e.i("np", np);
        tr.put(e);
    }
}

int main(int argc, char **argv) {
    std::string suite = arg(argc, argv, "--suite", "B01"), out = arg(argc, argv, "--out", "/tmp/trace");
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 20), shards = argi(argc, argv, "--shards", 1);
    errors();
    Trace tr(out, int(shards));
    for (int c = 0; c < cases; c++) {
        Rng r(uint64_t(seed) * 1000003 + uint64_t(c) + 77);
        if (c % 2)
            run_case<double>(tr, r, suite);
        else
            run_case<cd>(tr, r, suite);
    }
    return 0;
}
