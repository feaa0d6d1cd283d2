// Reported statistics, parameters and saved layouts (H11), on one process or several.
#include "agen.hpp"
#include <htool/hmatrix/hmatrix_distributed_output.hpp>
#include <cfenv>
using namespace vf;
using namespace htool;
static int rk = 0, np = 1;
static std::string dir;

// [to, ts, so, ss, kind, rank, counted as one triangle, depth, depth it claims]
template <typename T>
void rows_of(const HMatrix<T> &h, int depth, int unit, std::vector<std::vector<int>> &l) {
    const LowRankMatrix<T> *lr = h.get_low_rank_data();
    int kind                   = !h.is_leaf() ? 0 : h.get_dense_data() ? 1 : lr ? 2 : 3;
    auto &t = h.get_target_cluster(), &s = h.get_source_cluster();
    l.push_back({t.get_offset() / unit, t.get_size() / unit, s.get_offset() / unit, s.get_size() / unit, kind, kind == 2 ? lr->get_U().nb_cols() : -1, h.get_symmetry() != 'N', depth, int(h.get_depth())});
    for (auto &c : h.get_children()) rows_of(*c, depth + 1, unit, l);
}
// sign, integer part / 10^6, integer part % 10^6, millionths
inline std::vector<int> number(const std::string &s) {
    size_t p = 0;
    int sg   = 1;
    if (p < s.size() && s[p] == '-') sg = -1, p++;
    long ip = 0;
    int frac = 0, digits = 0;
    if (p >= s.size() || !isdigit((unsigned char)s[p])) return {0, 0, 0, BAD};
    for (; p < s.size() && isdigit((unsigned char)s[p]); p++)
        if (ip < 1000000000000000L) ip = ip * 10 + (s[p] - '0');
    if (p < s.size() && s[p] == '.')
        for (p++; p < s.size() && isdigit((unsigned char)s[p]); p++)
            if (digits < 6) frac = frac * 10 + (s[p] - '0'), digits++;
    while (digits++ < 6) frac *= 10;
    if (p != s.size() && s.substr(p) != " second(s)") return {0, 0, 0, BAD};
    return {sg, int(std::min<long>(ip / 1000000, BAD)), int(ip % 1000000), frac};
}
inline std::string numbers(const std::map<std::string, std::string> &m) {
    Ev e("numbers");
    for (auto &p : m) e.seq(p.first.c_str(), number(p.second));
    return e.str();
}
inline std::string pairs(const std::vector<std::pair<std::string, std::string>> &v) {
    std::string s = "[";
    for (auto &p : v) {
        Ev e("x");
        e.s("k", p.first).s("v", p.second);
        std::string x = e.str();
        s += (s.size() > 1 ? ",{" : "{") + x.substr(x.find("\"k\""));
    }
    return s + "]";
}
inline std::string pairs(const std::map<std::string, std::string> &m) { return pairs(std::vector<std::pair<std::string, std::string>>(m.begin(), m.end())); }
// the printed table: title, then key____value lines
inline std::string table(const std::string &text, std::string &title) {
    std::istringstream is(text);
    std::vector<std::pair<std::string, std::string>> v;
    std::getline(is, title);
    for (std::string l; std::getline(is, l);) {
        if (l.empty()) continue;
        // the key ends before the padding
        size_t z = l.size();
        for (size_t p = 0; p + 1 < l.size(); p++)
            if (l[p] == '_' && l[p + 1] != '_' && (isdigit((unsigned char)l[p + 1]) || l[p + 1] == '-') ) { z = p + 1; break; }
        std::string k = l.substr(0, z), val = z < l.size() ? l.substr(z) : "";
        while (!k.empty() && k.back() == '_') k.pop_back();
        v.push_back({k, val});
    }
    return pairs(v);
}
inline std::string csv(const std::string &file, std::vector<int> &head, bool &ok) {
    std::ifstream f(file);
    ok = bool(f);
    std::vector<std::vector<int>> rows;
    head.clear();
    bool first = true;
    for (std::string l; std::getline(f, l);) {
        if (l.empty()) continue;
        std::vector<int> v;
        std::istringstream is(l);
        for (std::string c; std::getline(is, c, ',');) {
            try {
                v.push_back(std::stoi(c));
            } catch (...) { v.push_back(BAD); }
        }
        if (first)
            head = v;
        else
            rows.push_back(v);
        first = false;
    }
    return jseq(rows);
}
struct Stream { // a stream with a formatting of its own
    std::ostringstream os;
    explicit Stream(Rng &r) {
        os.fill("*_ 0"[r.range(0, 3)]);
        if (r.chance(50)) os << std::right;
        if (r.chance(50)) os << std::scientific;
        os.precision(r.range(1, 12));
    }
    std::string state() const {
        std::ostringstream s;
        s << int(os.fill()) << " " << long(os.flags()) << " " << os.precision() << " " << os.width();
        return s.str();
    }
};
inline std::vector<int> depths_of(const Cl &c) { // least and greatest depth of a leaf, structurally
    int lo = 1 << 20, hi = 0;
    const Cl *root = &c.get_root_cluster();
    std::vector<std::pair<const Cl *, int>> st{{root, 0}};
    while (!st.empty()) {
        auto n = st.back();
        st.pop_back();
        if (n.first->is_leaf()) lo = std::min(lo, n.second), hi = std::max(hi, n.second);
        for (auto &k : n.first->get_children()) st.push_back({k.get(), n.second + 1});
    }
    return {lo, hi};
}
// compressor of the large case: rank-one zero blocks
template <typename T>
struct ZeroLR : VirtualLowRankGenerator<T> {
    void copy_low_rank_approximation(const VirtualInternalGenerator<T> &, const Cl &t, const Cl &s, double, int &rank, Matrix<T> &U, Matrix<T> &V) const override {
        rank = 1;
        U.resize(t.get_size(), 1);
        V.resize(1, s.get_size());
    }
};
template <typename T>
struct NoGen : VirtualInternalGenerator<T> {
    void copy_submatrix(int M, int N, int, int, T *p) const override { std::fill(p, p + size_t(M) * N, T(0)); }
};
struct Request {
    int mcst = 0, mcss = 0, eta = 0, eps = 0, mint = 0, mins = 0; // eta, eps in millionths
};
template <typename T>
void put_matrix(Trace &tr, const HMatrix<T> &h, const Request &q, int unit, bool part) {
    std::vector<std::vector<int>> n;
    rows_of(h, 0, unit, n);
    Ev e("matrix");
    e.i("unit", unit).i("nr", h.get_target_cluster().get_size() / unit).i("nc", h.get_source_cluster().get_size() / unit).i("to", h.get_target_cluster().get_offset() / unit).i("so", h.get_source_cluster().get_offset() / unit).raw("nodes", jseq(n)).b("part", part);
    e.seq("td", depths_of(h.get_target_cluster())).seq("sd", depths_of(h.get_source_cluster()));
    e.i("mcst", q.mcst).i("mcss", q.mcss).i("eta", q.eta).i("eps", q.eps).i("mint", q.mint).i("mins", q.mins);
    tr.put(e);
}
template <typename T>
void reports(Trace &tr, Rng &r, const HMatrix<T> &h, int files = 100) {
    int th = r.range(1, 5);
    omp_set_num_threads(th);
    {
        auto m = get_hmatrix_information(h);
        Stream s(r);
        std::string before = s.state(), title;
        print_hmatrix_information(h, s.os);
        Ev e("information");
        e.raw("num", numbers(m)).i("threads", th).raw("map", pairs(m)).s("before", before).s("after", s.state());
        e.raw("printed", table(s.os.str(), title));
        tr.put(e);
    }
    {
        auto m = get_tree_parameters(h);
        Stream s(r);
        std::string before = s.state(), title;
        print_tree_parameters(h, s.os);
        Ev e("parameters");
        e.raw("num", numbers(m)).raw("map", pairs(m)).s("before", before).s("after", s.state());
        e.raw("printed", table(s.os.str(), title));
        tr.put(e);
    }
    if (!r.chance(files)) return;
    auto ns = all_nodes(h);
    for (int k = 0; k < 2; k++) {
        auto b = k == 0 ? &h : ns[r.range(0, int(ns.size()) - 1)];
        std::string f = dir + "/leaves";
        std::vector<int> head;
        bool ok;
        save_leaves_with_rank(*b, f);
        Ev e("leaves");
        std::string rows = csv(f + ".csv", head, ok);
        e.b("exists", ok).seq("head", head).raw("rows", rows).i("to", b->get_target_cluster().get_offset()).i("ts", b->nb_rows()).i("so", b->get_source_cluster().get_offset()).i("ss", b->nb_cols());
        tr.put(e);
        std::remove((f + ".csv").c_str());
    }
    std::vector<int> all{0, 1, 2, 3, 4, 5, 6}, ds;
    for (int k = 6; k > 0; k--) std::swap(all[k], all[r.range(0, k)]);
    ds.assign(all.begin(), all.begin() + r.range(1, 5));
    std::string f = dir + "/levels", files_json = "[";
    save_levels(h, f, ds);
    for (size_t p = 0; p < ds.size(); p++) {
        std::vector<int> head;
        bool ok;
        std::string rows = csv(f + std::to_string(p) + ".csv", head, ok);
        Ev e("x");
        e.b("exists", ok).i("depth", ds[p]).seq("head", head).raw("rows", rows);
        std::string x = e.str();
        files_json += (p ? ",{" : "{") + x.substr(x.find("\"exists\""));
        std::remove((f + std::to_string(p) + ".csv").c_str());
    }
    tr.put(Ev("levels").raw("files", files_json + "]"));
}
struct Trees {
    std::unique_ptr<Cl> t, s;
    Request q;
};
inline Cl tree_with(Rng &r, int n, int &mcs, int parts) {
    for (int k = 0;; k++) { // the requested size must be the one used
        mcs   = r.range(1, 6);
        int d = r.range(1, 3), nch = r.chance(85) ? r.range(2, 3) : r.range(4, 6), kind = r.range(0, 7);
        if (k > 20) parts = 1;
        errors().errors = 0;
        Cl c            = make_tree(r, n, d, mcs, nch, parts, k > 20, kind); // too few points to split: one part, given
        bool ok         = errors().errors == 0 && int(c.get_clusters_on_partition().size()) == parts;
        for (auto p : c.get_clusters_on_partition()) ok = ok && p;
        errors().errors = 0;
        if (ok || k > 40) return c;
    }
}
template <typename T>
void one_case(Trace &tr, Rng &r) {
    int n = r.chance(10) ? r.range(1, 5) : r.range(6, 40);
    int parts = n < 8 ? 1 : r.chance(92) ? r.range(1, 4) : r.range(5, 7);
    Request q;
    Cl t = tree_with(r, n, q.mcst, parts);
    q.mcss = q.mcst;
    bool same = r.chance(60);
    std::unique_ptr<Cl> s2;
    if (!same) s2.reset(new Cl(tree_with(r, r.range(1, 36), q.mcss, 1)));
    const Cl &s = same ? t : *s2;
    HOpt o      = ropt(r);
    o.mint      = r.chance(60) ? 0 : r.range(1, 3);
    o.mins      = r.chance(60) ? 0 : r.range(1, 3);
    o.cons      = r.chance(60);
    o.mode      = r.range(0, 4);
    o.eps       = r.pick(std::vector<int>{1, 10, 250, 100000}) * 1e-6;
    if (same && r.chance(50)) {
        o.sym  = is_c<T>::value && r.chance(50) ? 'H' : 'S';
        o.uplo = r.chance(50) ? 'L' : 'U';
        o.cons = true;
        if (o.mode == 1 || o.mode == 4) o.mode = 2;
    }
    int npart = int(t.get_clusters_on_partition().size());
    if (npart > 1 && r.chance(35)) {
        o.tp = r.range(0, npart - 1);
        if (o.sym != 'N') o.sp = o.tp;
    }
    q.eta  = o.eta2 * 500000;
    q.eps  = int(o.eps * 1e6 + 0.5);
    q.mint = o.mint;
    q.mins = o.mins;
    auto g = int_op<T>(r, t.get_size(), s.get_size(), o.sym);
    tr.begin_case();
    tr.put(Ev("case"));
    auto A      = build_h<T>(t, s, g, o);
    put_matrix<T>(tr, *A.h, q, 1, o.tp >= 0);
    reports<T>(tr, r, *A.h);
    if (r.chance(50)) { // the report follows the matrix
        for (int k = r.range(1, 3); k > 0; k--)
            switch (r.range(0, 4)) {
            case 0: {
                q.eps = r.range(1, 500000);
                A.h->set_epsilon(q.eps * 1e-6);
                break;
            }
            case 1: {
                q.eta = r.range(1, 9) * 1000000;
                A.h->set_eta(q.eta * 1e-6);
                break;
            }
            case 2: A.h->set_minimal_target_depth(unsigned(q.mint = r.range(0, 9))); break;
            case 3: A.h->set_minimal_source_depth(unsigned(q.mins = r.range(0, 9))); break;
            default: {
                std::vector<const HMatrix<T> *> ns = all_nodes(*A.h);
                for (auto b : ns)
                    if (b->is_leaf() && b->get_low_rank_data() && b->get_low_rank_data()->get_U().nb_cols() > 0 && r.chance(50)) { // a new rank
                        auto lr = const_cast<HMatrix<T> *>(b)->get_low_rank_data();
                        int k2  = r.range(1, 4);
                        lr->get_U().resize(b->nb_rows(), k2);
                        lr->get_V().resize(k2, b->nb_cols());
                    }
            }
            }
        put_matrix<T>(tr, *A.h, q, 1, o.tp >= 0);
        reports<T>(tr, r, *A.h);
    }
}
inline Cl big_tree(int n, int mcs, int parts) {
    std::vector<double> x(static_cast<size_t>(n));
    for (int i = 0; i < n; i++) x[size_t(i)] = i;
    ClusterTreeBuilder<double> b;
    b.set_minclustersize(mcs);
    b.set_splitting_strategy(std::make_shared<RegularSplitting<double>>());
    b.set_direction_computation_strategy(std::make_shared<ComputeBoundingBox<double>>());
    return b.create_cluster_tree(n, 1, x.data(), 2, parts);
}
// more than 2^32 coefficients
template <typename T>
std::unique_ptr<HMatrix<T>> big_matrix(const Cl &t, const Cl &s, int tp, int mint) {
    HMatrixTreeBuilder<T, double> b(t, s, 1e-3, 1., 'N', 'N', -1, tp, -1);
    b.set_low_rank_generator(std::make_shared<ZeroLR<T>>());
    b.set_admissibility_condition(std::make_shared<Admis>(4, 1, 100, false));
    b.set_minimal_target_depth(mint);
    NoGen<T> g;
    return std::unique_ptr<HMatrix<T>>(new HMatrix<T>(b.build(static_cast<const VirtualInternalGenerator<T> &>(g))));
}
inline void big_case(Trace &tr, Rng &r) {
    int n = 102400, m = r.chance(50) ? n : 51200;
    Cl t = big_tree(n, 1000, 1), s = big_tree(m, 1000, 1);
    Request q;
    q.mcst = q.mcss = 1000;
    q.eta = 1000000;
    q.eps = 1000;
    q.mint = r.range(0, 2);
    tr.begin_case();
    tr.put(Ev("case"));
    auto h = big_matrix<double>(t, s, -1, q.mint);
    put_matrix<double>(tr, *h, q, 100, false);
    reports<double>(tr, r, *h, 0);
}
/********************************** several processes ***************************************/
template <typename T>
void distributed(Trace &tr, Rng &r, bool big) { // every process runs this with the same random numbers
    int n = big ? 102400 : r.range(2 * np + 2, 60);
    Request q;
    Cl t = big ? big_tree(n, 1000, np == 3 ? 2 : np) : tree_with(r, n, q.mcst, np);
    if (int(t.get_clusters_on_partition().size()) != np) return;
    bool same = big || r.chance(60);
    std::unique_ptr<Cl> s2;
    if (!same) s2.reset(new Cl(tree_with(r, r.range(1, 36), q.mcss, 1)));
    const Cl &s = same ? t : *s2;
    HOpt o      = ropt(r);
    o.mode      = r.pick(std::vector<int>{0, 1, 2, 3, 3, 4});
    o.percent   = r.pick(std::vector<int>{0, 5, 50, 90});
    o.refuse    = r.chance(70) ? 0 : 30;
    o.cons      = r.chance(60);
    if (same && r.chance(50)) {
        o.sym  = is_c<T>::value && r.chance(50) ? 'H' : 'S';
        o.uplo = r.chance(50) ? 'L' : 'U';
        o.cons = true;
        if (o.mode == 1 || o.mode == 4) o.mode = 2;
    }
    o.tp   = rk;
    o.sp   = o.sym != 'N' && r.chance(60) ? rk : -1;
    auto g = int_op<T>(r, big ? 1 : t.get_size(), big ? 1 : s.get_size(), o.sym);
    HObj<T> A;
    if (big)
        A.h = big_matrix<T>(t, s, rk, 2);
    else
        A = build_h<T>(t, s, g, o);
    int unit = big ? 100 : 1;
    std::vector<std::vector<int>> mine;
    rows_of<T>(*A.h, 0, unit, mine);
    int th = r.range(1, 3);
    omp_set_num_threads(th);
    auto info = get_distributed_hmatrix_information(*A.h, MPI_COMM_WORLD);
    Stream st(r);
    std::string before = st.state(), title;
    print_distributed_hmatrix_information(*A.h, st.os, MPI_COMM_WORLD);
    int local = int(get_hmatrix_information(*A.h).count("Number_of_false_positive"));
    int fp    = local ? std::stoi(get_hmatrix_information(*A.h)["Number_of_false_positive"]) : 0;
    // gather what every process holds
    std::vector<int> flat{A.h->nb_rows() / unit, A.h->nb_cols() / unit, fp};
    for (auto &x : mine) flat.insert(flat.end(), x.begin(), x.end());
    int len = int(flat.size());
    std::vector<int> lens(np), off(np);
    MPI_Gather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
    int tot = 0;
    for (int p = 0; p < np; p++) off[p] = tot, tot += lens[p];
    std::vector<int> allf(rk == 0 ? tot : 0);
    MPI_Gatherv(flat.data(), len, MPI_INT, allf.data(), lens.data(), off.data(), MPI_INT, 0, MPI_COMM_WORLD);
    int others = rk == 0 ? 0 : int(info.size() + st.os.str().size()), osum = 0;
    MPI_Reduce(&others, &osum, 1, MPI_INT, MPI_SUM, 0, MPI_COMM_WORLD);
    if (rk != 0) return;
    std::string parts = "[";
    for (int p = 0; p < np; p++) {
        std::vector<std::vector<int>> l;
        int *x = &allf[off[p]];
        for (int k = 3; k + 9 <= lens[p]; k += 9) l.emplace_back(x + k, x + k + 9);
        parts += std::string(p ? "," : "") + "{\"nr\":" + std::to_string(x[0]) + ",\"nc\":" + std::to_string(x[1]) + ",\"fp\":" + std::to_string(x[2]) + ",\"nodes\":" + jseq(l) + "}";
    }
    tr.begin_case();
    tr.put(Ev("case"));
    Ev e("distributed");
    e.i("unit", unit).raw("parts", parts + "]").i("threads", th).raw("num", numbers(info)).raw("map", pairs(info)).raw("printed", table(st.os.str(), title)).s("before", before).s("after", st.state()).i("others", osum);
    tr.put(e);
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &rk);
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    std::string suite = arg(argc, argv, "--suite", "H11"), out = arg(argc, argv, "--out", "/tmp/trace");
    dir       = arg(argc, argv, "--dir", "/tmp");
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 20), shards = argi(argc, argv, "--shards", 1);
    errors();
    {
        Trace tr(rk == 0 ? out : dir + "/other" + std::to_string(rk), rk == 0 ? int(shards) : 1);
        for (int c = 0; c < cases; c++) {
            Rng r(uint64_t(seed) * 1000003 + uint64_t(c) + 777);
            if (suite == "dist") {
                if (c % 2) distributed<double>(tr, r, c == 1 && (np == 1 || np == 2 || np == 4));
                else distributed<cd>(tr, r, false);
            } else if (c < 2)
                big_case(tr, r);
            else if (c % 2)
                one_case<double>(tr, r);
            else
                one_case<cd>(tr, r);
        }
    }
    MPI_Finalize();
    return 0;
}
