// Random cluster pairs, integer operators, exact compressors and hierarchical matrices for the drivers.
#ifndef VERIF_HGEN_HPP
#define VERIF_HGEN_HPP
#include "common.hpp"
#include <htool/clustering/clustering.hpp>
#include <htool/hmatrix/hmatrix.hpp>
#include <htool/hmatrix/hmatrix_output.hpp>
#include <htool/hmatrix/interfaces/virtual_dense_blocks_generator.hpp>
#include <htool/hmatrix/tree_builder/tree_builder.hpp>
#include <fstream>
#include <map>
#include <sstream>
#include <mutex>

namespace vf {
typedef htool::Cluster<double> Cl;

inline Cl make_tree(Rng &r, int n, int dim, int mcs, int nch, int parts, bool user_partition, int kind, int span = 10, bool radii = false) {
    htool::ClusterTreeBuilder<double> b;
    b.set_minclustersize(mcs);
    if (r.chance(40))
        b.set_splitting_strategy(std::make_shared<htool::RegularSplitting<double>>());
    else if (r.chance(40))
        b.set_splitting_strategy(std::make_shared<htool::GeometricSplitting<double>>());
    if (dim == 1 || r.chance(50))
        b.set_direction_computation_strategy(std::make_shared<htool::ComputeBoundingBox<double>>());
    std::vector<double> x = points(r, n, dim, kind, span), rad(n, 0.);
    if (radii)
        for (auto &v : rad) v = r.range(0, 2);
    std::vector<int> part;
    if (user_partition) {
        int o = 0;
        for (int p = 0; p < parts; p++) {
            int left = n - o - (parts - 1 - p);
            int s    = p == parts - 1 ? n - o : std::max(1, std::min(left, r.range(1, std::max(1, 2 * n / parts))));
            part.push_back(o);
            part.push_back(s);
            o += s;
        }
    }
    return b.create_cluster_tree(n, dim, x.data(), radii ? rad.data() : nullptr, nullptr, nch, parts, user_partition ? part.data() : nullptr);
}
class ErrorWriter : public htool::IObjectWriter {
  public:
    int errors = 0;
    void write(htool::LogLevel level, const std::string &text) override {
        if (level == htool::LogLevel::ERROR || level == htool::LogLevel::CRITICAL) {
            errors++;
            if (std::getenv("VDEBUG")) std::fprintf(stderr, "%s\n", text.c_str());
        }
    }
    void set_log_level(htool::LogLevel) override {}
};
inline ErrorWriter &errors() {
    static std::shared_ptr<ErrorWriter> w = [] { auto p = std::make_shared<ErrorWriter>(); htool::Logger::get_instance().set_current_writer(p); return p; }();
    return *w;
}
// as above, but only trees with a usable partition
inline Cl good_tree(Rng &r, int n, int dim, int mcs, int nch, int parts, bool user_partition, int kind, int span = 10, bool radii = false) {
    for (int t = 0; t < 20; t++) {
        errors().errors = 0;
        Cl c            = make_tree(r, n, dim, t < 5 ? mcs : 1, nch, t < 15 ? parts : 1, t < 15 ? user_partition : true, t < 10 ? kind : 0, span, radii);
        auto &on        = c.get_clusters_on_partition();
        bool ok         = errors().errors == 0 && int(on.size()) == (t < 15 ? parts : 1);
        for (auto p : on) ok = ok && p;
        errors().errors = 0;
        if (ok)
            return c;
    }
    errors().errors = 0;
    return make_tree(r, n, dim, 1, 2, 1, false, 0, span, radii);
}
// A block structure of MCHmat imposed on the matrices built while it is set.
struct Forced {
    bool on = false;
    int n = 0, nch = 2, w = 1; // every index of the structure stands for w points
    bool single = false;       // one more level with a single cluster at the top
    char sym = 'N';
    std::map<std::vector<int>, char> dec; // (offset, size) x 2 -> 's', 'd', 'r'
    bool parse(const std::string &line) { // tree;sym;"o,s,o,s,kind o,s,o,s,kind ..."
        size_t a = line.find(';'), b = line.find(';', a + 1);
        if (a == std::string::npos || b == std::string::npos || line[0] != 'n')
            return false;
        unsigned h = 7;
        for (char c : line) h = h * 31 + unsigned(c);
        w      = 1 + int(h >> 8) % 3;
        single = (h >> 16) % 3 == 0;
        n   = w * (line[1] - '0');
        nch = line[3] - '0';
        sym = line[a + 1];
        dec.clear();
        std::istringstream is(line.substr(b + 1));
        std::string word;
        while (is >> word) {
            std::vector<int> k(4);
            char kind[8];
            if (std::sscanf(word.c_str(), "%d,%d,%d,%d,%7s", &k[0], &k[1], &k[2], &k[3], kind) == 5)
                {
                    for (auto &v : k) v *= this->w;
                    dec[k] = kind[0];
                }
        }
        return on = true;
    }
    char at(const Cl &t, const Cl &s, bool flip) const {
        std::vector<int> k{t.get_offset(), t.get_size(), s.get_offset(), s.get_size()}, l{k[2], k[3], k[0], k[1]};
        auto i = dec.find(flip ? l : k);
        if (i == dec.end() && sym != 'N') i = dec.find(flip ? k : l);
        return i == dec.end() ? 'd' : i->second;
    }
};
inline Forced &forced() {
    static Forced f;
    return f;
}
// the cluster trees of MCHmat, as a user's splitting strategy
struct ForcedSplitting : htool::VirtualSplittingStrategy<double> {
    void splitting(Cl *c, const std::vector<int> &, int, const double *, int asked, int, const std::vector<double> &, std::vector<std::pair<int, int>> &parts) override {
        auto &f = forced();
        int g = c->get_size() / f.w, k = std::min(f.nch, g), o = c->get_offset();
        parts.clear();
        if (c->get_depth() == 0 && asked == 1 && f.single) {
            parts.emplace_back(o, c->get_size());
            return;
        }
        if (k < 2) return;
        for (int p = 0; p < k; p++) {
            int s = f.w * (p < k - 1 ? g / k : g - (k - 1) * (g / k));
            parts.emplace_back(o, s);
            o += s;
        }
    }
};
// the value to use when a structure is imposed, a random choice otherwise
template <typename A, typename B>
A imposed(A value, B otherwise) { return forced().on ? value : A(otherwise); }
inline bool imposed_sym() { return forced().on && forced().sym != 'N'; }
// run f once for every imposed structure in the file
template <typename F>
void replay_structures(const std::string &file, F f) {
    std::ifstream in(file);
    for (std::string l; std::getline(in, l);)
        if (forced().parse(l)) {
            f();
            forced().on = false;
        }
}
struct Flat {
    std::vector<const Cl *> nodes;
    std::vector<int> parent, off, size, depth, rank, r, c;
    std::map<const Cl *, int> index; // 1-based
};
inline Flat flatten(const Cl &root, int dim = 0, double sc = 50) {
    Flat f;
    f.nodes.push_back(&root);
    f.parent.push_back(0);
    for (size_t k = 0; k < f.nodes.size(); k++)
        for (auto &ch : f.nodes[k]->get_children()) {
            f.nodes.push_back(ch.get());
            f.parent.push_back(int(k) + 1);
        }
    for (size_t k = 0; k < f.nodes.size(); k++) {
        auto n            = f.nodes[k];
        f.index[n]        = int(k) + 1;
        f.off.push_back(n->get_offset());
        f.size.push_back(n->get_size());
        f.depth.push_back(int(n->get_depth()));
        f.rank.push_back(n->get_rank());
        f.r.push_back(qs(n->get_radius(), sc));
        for (int d = 0; d < dim; d++)
            f.c.push_back(qs(n->get_center()[d], sc));
    }
    return f;
}
inline std::string flat_json(const Flat &f, const Cl &root, int dim) {
    Ev e("x");
    e.i("dim", dim).seq("parent", f.parent).seq("off", f.off).seq("size", f.size).seq("depth", f.depth).seq("rank", f.rank).seq("r", f.r).seq("c", f.c).seq("perm", root.get_permutation());
    return e.str();
}

// Integer operator in user numbering: P Q^T (rank k) plus a sparse or dense integer part.
template <typename T>
struct IntOp {
    int m, n, k;
    std::vector<T> P, Q, A; // A is m x n column-major in user numbering
    T operator()(int i, int j) const { return A[size_t(j) * m + i]; }
};
inline double cj(double x) { return x; }
inline cd cj(cd x) { return std::conj(x); }
// sym: 'N', 'S', 'H'
template <typename T>
IntOp<T> int_op(Rng &r, int m, int n, char sym, int lo = -2, int hi = 2, int density = 30, bool hpd = false) {
    IntOp<T> g;
    g.m = m;
    g.n = n;
    g.k = r.range(0, 2);
    g.P = rvec<T>(r, m * g.k, lo, hi);
    g.Q = rvec<T>(r, n * g.k, lo, hi);
    g.A.assign(size_t(m) * n, T(0));
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) {
            T v = T(0);
            for (int l = 0; l < g.k; l++) {
                if (sym == 'N') v += g.P[i + l * m] * g.Q[j + l * n];
                if (sym == 'S') v += g.P[i + l * m] * g.P[j + l * m];
                if (sym == 'H') v += g.P[i + l * m] * cj(g.P[j + l * m]);
            }
            g.A[size_t(j) * m + i] = v;
        }
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++)
            if ((sym == 'N' || i <= j) && r.chance(density)) {
                T v = rnd<T>(r, lo, hi);
                if (sym == 'H' && i == j) v = T(re(v));
                g.A[size_t(j) * m + i] += v;
                if (sym == 'S' && i != j) g.A[size_t(i) * m + j] += v;
                if (sym == 'H' && i != j) g.A[size_t(i) * m + j] += cj(v);
            }
    if (sym != 'N')
        for (int l = 0; l < g.k; l++)
            for (int i = 0; i < m; i++) g.Q[i + l * n] = sym == 'H' ? cj(g.P[i + l * m]) : g.P[i + l * m];
    if (hpd) { // diagonally dominant
        for (int i = 0; i < m && i < n; i++) {
            double s = 0;
            for (int j = 0; j < n; j++)
                if (j != i) s += std::ceil(std::abs(g(i, j)));
            g.A[size_t(i) * m + i] = T(s + 1 + r.range(0, 2));
        }
    }
    return g;
}

struct Call {
    int r, M, c, N;
};
template <typename T>
class UserGen : public htool::VirtualGenerator<T> { // user numbering
  public:
    const IntOp<T> &g;
    mutable std::mutex mx;
    mutable std::vector<std::vector<int>> calls; // rmin rmax cmin cmax M N
    explicit UserGen(const IntOp<T> &g0) : g(g0) {}
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        bool ok = true;
        for (int i = 0; i < M; i++) ok = ok && rows[i] >= 0 && rows[i] < g.m;
        for (int j = 0; j < N; j++) ok = ok && cols[j] >= 0 && cols[j] < g.n;
        {
            std::lock_guard<std::mutex> lk(mx);
            calls.push_back({M > 0 ? *std::min_element(rows, rows + M) : 0, M > 0 ? *std::max_element(rows, rows + M) : 0, N > 0 ? *std::min_element(cols, cols + N) : 0, N > 0 ? *std::max_element(cols, cols + N) : 0, M, N});
        }
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++)
                ptr[size_t(j) * M + i] = ok ? g(rows[i], cols[j]) : T(0);
    }
};
template <typename T>
class ClusterGen : public htool::VirtualInternalGenerator<T> { // cluster numbering
  public:
    const IntOp<T> &g;
    const std::vector<int> &pt, &ps;
    mutable std::mutex mx;
    mutable std::vector<std::vector<int>> calls;
    ClusterGen(const IntOp<T> &g0, const Cl &t, const Cl &s) : g(g0), pt(t.get_permutation()), ps(s.get_permutation()) {}
    void copy_submatrix(int M, int N, int r0, int c0, T *ptr) const override {
        {
            std::lock_guard<std::mutex> lk(mx);
            calls.push_back({r0, r0 + M - 1, c0, c0 + N - 1, M, N});
        }
        bool ok = r0 >= 0 && c0 >= 0 && r0 + M <= g.m && c0 + N <= g.n;
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++)
                ptr[size_t(j) * M + i] = ok ? g(pt[r0 + i], ps[c0 + j]) : T(0);
    }
};

inline unsigned mix(unsigned a, unsigned b, unsigned c, unsigned d, unsigned salt) {
    uint64_t z = salt;
    for (unsigned v : {a, b, c, d}) {
        z = (z ^ v) * 0x9E3779B97F4A7C15ull;
        z ^= z >> 29;
    }
    return unsigned(z >> 20);
}

// Exact compressor: U V equals the block; gives up on the blocks its hash selects.
template <typename T>
class ExactCompressor : public htool::VirtualLowRankGenerator<T> {
  public:
    const IntOp<T> *g;
    const std::vector<int> *pt, *ps;
    unsigned salt;
    int refuse_percent;
    bool always_full = false;
    struct Ask {
        const Cl *t, *s;
        double eps;
        int rank;
        bool refused;
    };
    mutable std::mutex mx;
    mutable std::vector<Ask> asked;
    ExactCompressor(const IntOp<T> &g0, const Cl &t, const Cl &s, unsigned salt0, int refuse) : g(&g0), pt(&t.get_permutation()), ps(&s.get_permutation()), salt(salt0), refuse_percent(refuse) {}
    int force = 0; // 1: as the imposed structure says, 2: mirrored
    bool refuses(const Cl &t, const Cl &s) const {
        if (force) return forced().at(t, s, force == 2) != 'r';
        return int(mix(t.get_offset(), t.get_size(), s.get_offset(), s.get_size(), salt) % 100) < refuse_percent;
    }
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &A, const Cl &t, const Cl &s, double epsilon, int &rank, htool::Matrix<T> &U, htool::Matrix<T> &V) const override {
        bool no = refuses(t, s);
        {
            std::lock_guard<std::mutex> lk(mx);
            asked.push_back({&t, &s, epsilon, rank, no});
        }
        int m = t.get_size(), n = s.get_size();
        if (no) {
            rank = -1;
            return;
        }
        std::vector<T> B(size_t(m) * n);
        A.copy_submatrix(m, n, t.get_offset(), s.get_offset(), B.data());
        bool zero = true, low = !always_full;
        for (auto &v : B) zero = zero && v == T(0);
        for (int j = 0; j < n && low; j++)
            for (int i = 0; i < m && low; i++) {
                T v = T(0);
                for (int l = 0; l < g->k; l++)
                    v += g->P[(*pt)[t.get_offset() + i] + l * g->m] * g->Q[(*ps)[s.get_offset() + j] + l * g->n];
                low = v == B[size_t(j) * m + i];
            }
        if (zero && !always_full) {
            rank = 0;
            U.resize(m, 0);
            V.resize(0, n);
        } else if (low && g->k > 0 && g->k <= std::min(m, n)) {
            rank = g->k;
            U.resize(m, rank);
            V.resize(rank, n);
            for (int l = 0; l < rank; l++) {
                for (int i = 0; i < m; i++) U(i, l) = g->P[(*pt)[t.get_offset() + i] + l * g->m];
                for (int j = 0; j < n; j++) V(l, j) = g->Q[(*ps)[s.get_offset() + j] + l * g->n];
            }
        } else if (n <= m) {
            rank = n;
            U.resize(m, n);
            V.resize(n, n);
            for (int j = 0; j < n; j++)
                for (int i = 0; i < m; i++) U(i, j) = B[size_t(j) * m + i];
            for (int j = 0; j < n; j++)
                for (int i = 0; i < n; i++) V(i, j) = i == j ? T(1) : T(0);
        } else {
            rank = m;
            U.resize(m, m);
            V.resize(m, n);
            for (int j = 0; j < m; j++)
                for (int i = 0; i < m; i++) U(i, j) = i == j ? T(1) : T(0);
            for (int j = 0; j < n; j++)
                for (int i = 0; i < m; i++) V(i, j) = B[size_t(j) * m + i];
        }
    }
};

// Admissibility by hash (deterministic in the index ranges), or the library's default rule.
class Admis : public htool::VirtualAdmissibilityCondition<double> {
  public:
    int mode; // 0: default rule, 1: hash, 2: hash without overlapping ranges, 3: disjoint ranges, 4: everything, 5: imposed, 6: imposed and mirrored
    unsigned salt;
    int percent;
    bool sym;
    htool::RjasanowSteinbach<double> rs;
    Admis(int m, unsigned s, int p, bool sy) : mode(m), salt(s), percent(p), sym(sy) {}
    bool ComputeAdmissibility(const Cl &t, const Cl &s, decltype(1.) eta) const override {
        if (mode == 0 && t.get_center().size() == s.get_center().size())
            return rs.ComputeAdmissibility(t, s, eta);
        bool overlap = t.get_offset() < s.get_offset() + s.get_size() && s.get_offset() < t.get_offset() + t.get_size();
        if (mode == 4)
            return true;
        if (mode >= 5) // dense leaves that are no leaf clusters are refused compressions
            return forced().at(t, s, mode == 6) == 'r' || (forced().at(t, s, mode == 6) == 'd' && !(t.is_leaf() && s.is_leaf()));
        if (mode == 3)
            return !overlap;
        if (mode == 2 && overlap)
            return false;
        unsigned a = t.get_offset(), b = t.get_size(), c = s.get_offset(), d = s.get_size();
        if (sym && std::make_pair(c, d) < std::make_pair(a, b)) {
            std::swap(a, c);
            std::swap(b, d);
        }
        return int(mix(a, b, c, d, salt) % 100) < percent;
    }
};

template <typename T>
class DenseBlocks : public htool::VirtualDenseBlocksGenerator<T> {
  public:
    const IntOp<T> &g;
    const std::vector<int> &pt, &ps;
    mutable int ncalls = 0;
    mutable std::vector<std::vector<int>> calls; // r M c N
    DenseBlocks(const IntOp<T> &g0, const Cl &t, const Cl &s) : g(g0), pt(t.get_permutation()), ps(s.get_permutation()) {}
    void copy_dense_blocks(const std::vector<int> &M, const std::vector<int> &N, const std::vector<int> &rows, const std::vector<int> &cols, std::vector<T *> &ptr) const override {
        ncalls++;
        for (size_t k = 0; k < M.size(); k++) {
            calls.push_back({rows[k], M[k], cols[k], N[k]});
            bool ok = rows[k] >= 0 && cols[k] >= 0 && rows[k] + M[k] <= g.m && cols[k] + N[k] <= g.n;
            for (int j = 0; j < N[k]; j++)
                for (int i = 0; i < M[k]; i++)
                    ptr[k][size_t(j) * M[k] + i] = ok ? g(pt[rows[k] + i], ps[cols[k] + j]) : T(0);
        }
    }
};

inline std::string jseq(const std::vector<std::vector<int>> &v) {
    std::string s = "[";
    for (size_t k = 0; k < v.size(); k++) {
        s += k ? ",[" : "[";
        for (size_t j = 0; j < v[k].size(); j++)
            s += (j ? "," : "") + std::to_string(v[k][j]);
        s += "]";
    }
    return s + "]";
}
template <typename T>
std::string jmat(const T *p, int m, int n, double tol = SNAP) {
    Ev e("x");
    e.mat("a", p, m, n, tol);
    std::string s = e.str();
    size_t a      = s.find("\"a\":") + 4;
    return s.substr(a, s.size() - a - 1);
}
// exact content of a leaf
template <typename T>
std::vector<T> leaf_content(const htool::HMatrix<T> &h) {
    int m = h.get_target_cluster().get_size(), n = h.get_source_cluster().get_size();
    std::vector<T> v(size_t(m) * n, T(0));
    if (h.is_dense()) {
        auto d = h.get_dense_data();
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) v[size_t(j) * m + i] = (*d)(i, j);
    } else {
        auto l = h.get_low_rank_data();
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++)
                for (int k = 0; k < l->rank_of(); k++) v[size_t(j) * m + i] += l->get_U(i, k) * l->get_V(k, j);
    }
    return v;
}
} // namespace vf
#endif
