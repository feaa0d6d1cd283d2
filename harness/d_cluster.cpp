// Cluster trees: construction, renumbering, persistence (C01-C05).
#include "common.hpp"
#include <htool/clustering/clustering.hpp>
#include <htool/clustering/cluster_output.hpp>
using namespace vf;
using namespace htool;

class CountingWriter : public IObjectWriter {
  public:
    int errors = 0;
    void write(LogLevel level, const std::string &) override {
        if (level == LogLevel::ERROR || level == LogLevel::CRITICAL)
            errors++;
    }
    void set_log_level(LogLevel) override {}
};

struct Params {
    int N = 0, dim = 0, mcs = 0, nch = 0, parts = 0, splitting = 0, direction = 0, kind = 0;
    bool with_radii = false, with_weights = false, again = false;
    std::vector<int> given; // offset,size pairs
    std::vector<double> x, rad, w;
};
static const double SC = 500;

template <typename T>
struct TreeDump {
    std::vector<const Cluster<T> *> nodes;
    std::vector<int> parent, nk, off, size, depth, rank, counter, leaf, root, r, c;
};
template <typename T>
TreeDump<T> dump(const Cluster<T> &root, int dim) {
    TreeDump<T> d;
    d.nodes.push_back(&root);
    d.parent.push_back(0);
    for (size_t k = 0; k < d.nodes.size(); k++) // breadth first
        for (auto &ch : d.nodes[k]->get_children()) {
            d.nodes.push_back(ch.get());
            d.parent.push_back(int(k) + 1);
        }
    for (auto n : d.nodes) {
        d.nk.push_back(int(n->get_children().size()));
        d.off.push_back(n->get_offset());
        d.size.push_back(n->get_size());
        d.depth.push_back(int(n->get_depth()));
        d.rank.push_back(n->get_rank());
        d.counter.push_back(n->get_counter());
        d.leaf.push_back(n->is_leaf());
        d.root.push_back(n->is_root());
        d.r.push_back(qs(n->get_radius(), SC));
        for (int p = 0; p < dim; p++)
            d.c.push_back(p < int(n->get_center().size()) ? qs(n->get_center()[p], SC) : BAD);
    }
    return d;
}

template <typename T>
void put_tree(Ev &e, const Cluster<T> &root, const Params &P) {
    auto d = dump(root, P.dim);
    e.i("N", P.N).i("dim", P.dim).i("mcs", P.mcs).i("nch", P.nch).i("parts", P.parts).b("regular", P.splitting == 0);
    std::string g = "[";
    for (size_t p = 0; p + 1 < P.given.size(); p += 2)
        g += std::string(p ? "," : "") + "[" + std::to_string(P.given[p]) + "," + std::to_string(P.given[p + 1]) + "]";
    e.raw("given", g + "]");
    e.seq("pts", P.x).seq("rad", P.rad).seq("w", P.w);
    e.seq("perm", root.get_permutation()).b("plocal", root.is_permutation_local());
    e.i("mind", long(root.get_minimal_depth())).i("maxd", long(root.get_maximal_depth())).i("mincs", long(root.get_minclustersize()));
    e.seq("parent", d.parent).seq("nk", d.nk).seq("off", d.off).seq("size", d.size).seq("depth", d.depth).seq("rank", d.rank).seq("counter", d.counter).seq("root", d.root).seq("r", d.r).seq("c", d.c);
    std::vector<int> pn, onp, cop;
    auto &parts = root.get_clusters_on_partition();
    for (size_t p = 0; p < parts.size(); p++) {
        int idx = 0;
        for (size_t k = 0; k < d.nodes.size(); k++)
            if (d.nodes[k] == parts[p] && d.nodes[k] == &root.get_cluster_on_partition(p))
                idx = int(k) + 1;
        pn.push_back(idx);
    }
    bool have = !parts.empty() && parts[0] != nullptr;
    if (have)
        for (auto n : d.nodes)
            onp.push_back(is_cluster_on_partition(*n));
    e.seq("partnodes", pn).seq("onpart", onp);
    // equality and containment of nodes, on a sample of pairs
    std::string eq = "[", ct = "[";
    int m      = int(std::min<size_t>(d.nodes.size(), 14));
    for (int a = 0; a < m; a++)
        for (int b = 0; b < m; b++) {
            eq += std::string(eq.size() > 1 ? "," : "") + (*d.nodes[a] == *d.nodes[b] ? "1" : "0");
            ct += std::string(ct.size() > 1 ? "," : "") + (left_cluster_contains_right_cluster(*d.nodes[a], *d.nodes[b]) ? "1" : "0");
        }
    bool rp = true;
    for (auto n : d.nodes)
        rp = rp && &n->get_root_cluster() == &root;
    e.b("rootptr", rp);
    e.i("eqm", m).raw("eq", eq + "]").raw("ct", ct + "]");
}

// the library's own strategies, with the directions they answer written down
static std::vector<std::vector<int>> directions;
template <typename T, typename S>
class Recorded : public VirtualDirectionComputationStrategy<T> {
    S s;

  public:
    std::vector<T> compute_direction(const Cluster<T> *c, const std::vector<int> &perm, int dim, const T *const x, const T *const rad, const T *const w) override {
        auto d = s.compute_direction(c, perm, dim, x, rad, w);
        std::vector<int> v{c->get_offset(), c->get_size(), int(c->get_depth())};
        for (auto a : d) v.push_back(qs(a, 100));
        directions.push_back(v);
        return d;
    }
};
template <typename T>
Cluster<T> build(const Params &P) {
    directions.clear();
    // a builder is used for several trees, and told only what changes
    struct Kept {
        ClusterTreeBuilder<T> b;
        int mcs = -1, splitting = -1, direction = -1;
    };
    static std::unique_ptr<Kept> kept;
    if (!kept || !P.again) kept.reset(new Kept);
    ClusterTreeBuilder<T> &b = kept->b;
    if (kept->mcs != P.mcs) b.set_minclustersize(P.mcs);
    if (kept->splitting != P.splitting) {
        if (P.splitting == 1)
            b.set_splitting_strategy(std::make_shared<GeometricSplitting<T>>());
        else
            b.set_splitting_strategy(std::make_shared<RegularSplitting<T>>());
    }
    if (kept->direction != P.direction) {
        if (P.direction == 1)
            b.set_direction_computation_strategy(std::make_shared<Recorded<T, ComputeBoundingBox<T>>>());
        else
            b.set_direction_computation_strategy(std::make_shared<Recorded<T, ComputeLargestExtent<T>>>());
    }
    kept->mcs = P.mcs, kept->splitting = P.splitting, kept->direction = P.direction;
    std::vector<T> x(P.x.begin(), P.x.end()), rad(P.rad.begin(), P.rad.end()), w(P.w.begin(), P.w.end());
    if (!P.with_radii && !P.with_weights && P.again) {
        if (P.given.empty()) return b.create_cluster_tree(P.N, P.dim, x.data(), P.nch, P.parts);
        return b.create_cluster_tree(P.N, P.dim, x.data(), P.nch, P.parts, P.given.data());
    }
    return b.create_cluster_tree(P.N, P.dim, x.data(), P.with_radii ? rad.data() : nullptr, P.with_weights ? w.data() : nullptr, P.nch, P.parts, P.given.empty() ? nullptr : P.given.data());
}

Params random_params(Rng &r, int c) {
    Params P;
    P.dim       = r.range(1, 3);
    P.direction = P.dim == 1 ? 1 : r.range(0, 1);
    P.splitting = r.range(0, 1);
    P.nch       = r.pick(std::vector<int>{2, 2, 2, 3, 4, 5});
    P.mcs       = r.pick(std::vector<int>{1, 1, 2, 3, 5, 10});
    P.parts     = r.pick(std::vector<int>{1, 1, 2, 2, 3, 4, 5, 6, 7, 8});
    P.kind      = r.range(0, 7);
    static Params last;
    P.again = r.chance(60);
    if (P.again && last.mcs > 0 && r.chance(50)) { // the settings of the last tree
        P.mcs = last.mcs, P.splitting = last.splitting;
        if (P.dim > 1) P.direction = last.direction;
    }
    last = P;
    if (c == 0) { // exact powers of the number of children
        P.nch = 3; P.parts = 243; P.mcs = 1; P.dim = 2; P.direction = 0; P.splitting = 0; P.kind = 0;
    }
    if (c == 1) {
        P.nch = 5; P.parts = 125; P.mcs = 1; P.splitting = 0; P.kind = 0;
    }
    int need = P.parts * (P.mcs + 1);
    P.N      = std::max(r.range(2, 70), std::min(need + r.range(0, 30), 700));
    if (c < 2)
        P.N = P.parts * 2 + r.range(0, 40);
    if (c >= 2 && r.chance(10))
        P.N = need; // exact boundary
    if (c > 1 && r.chance(30)) {
        int o = 0;
        P.given.clear();
        for (int p = 0; p < P.parts; p++) {
            int left = P.N - o - (P.parts - 1 - p);
            int s    = p == P.parts - 1 ? P.N - o : std::max(1, std::min(left, r.chance(20) ? 1 : r.range(1, std::max(1, 2 * P.N / P.parts))));
            P.given.push_back(o);
            P.given.push_back(s);
            o += s;
        }
    }
    P.x            = points(r, P.N, P.dim, P.kind);
    P.with_radii   = r.chance(50);
    P.with_weights = r.chance(50);
    P.rad.assign(P.N, 0);
    P.w.assign(P.N, 1);
    if (P.with_radii)
        for (auto &v : P.rad) v = r.range(0, 3);
    if (P.with_weights)
        for (auto &v : P.w) v = r.range(1, 3);
    return P;
}

template <typename C, typename T>
void conv(Trace &tr, Rng &r, const Cluster<T> &root, const char *kind, int part, int which) {
    const Cluster<T> *node = part < 0 ? &root : root.get_clusters_on_partition()[part];
    int n                  = node->get_size();
    std::vector<C> in = rvec<C>(r, n, -500, 500), keep, out(n + 2, mk<C>(777, 0));
    keep = in;
    switch (which) {
    case 0: user_to_cluster(*node, in.data(), out.data()); break;
    case 1: cluster_to_user(*node, in.data(), out.data()); break;
    case 2: global_to_root_cluster(root, in.data(), out.data()); break;
    case 3: root_cluster_to_global(root, in.data(), out.data()); break;
    case 4: local_to_local_cluster(root, part, in.data(), out.data()); break;
    case 5: local_cluster_to_local(root, part, in.data(), out.data()); break;
    }
    Ev e("conv");
    e.s("fn", kind).b("inv", which % 2 == 1).i("off", node->get_offset()).i("size", n).mat("in", in, n, 1).mat("out", out, n, 1);
    e.b("clean", keep == in && out[n] == mk<C>(777, 0) && out[n + 1] == mk<C>(777, 0));
    tr.put(e);
}

// several spaces / commas separated ints
static std::vector<double> parse_row(const std::string &line, size_t skip) {
    std::vector<double> v;
    std::stringstream s(line);
    std::string tok;
    size_t k = 0;
    while (std::getline(s, tok, ',')) {
        if (k++ >= skip)
            v.push_back(tok.empty() ? 1e9 : atof(tok.c_str()));
    }
    return v;
}

static void errors_before(std::shared_ptr<CountingWriter> wr) { wr->errors = 0; }
template <typename T>
void run_case(Trace &tr, Rng &r, int c, const std::string &suite, const std::string &dir, std::shared_ptr<CountingWriter> wr) {
    Params P   = random_params(r, c);
    if (suite == "C06") {
        P = random_params(r, 2);
        while (P.N > 60) P = random_params(r, 2);
        if (P.dim == 3 && r.chance(40)) // symmetric under a rotation of the axes: extents that are equal in several directions
            for (int k = 0; k + 2 < P.N; k += 3)
                for (int d = 0; d < 3; d++) {
                    P.x[size_t(k + 1) * 3 + size_t(d)] = P.x[size_t(k) * 3 + size_t((d + 1) % 3)];
                    P.x[size_t(k + 2) * 3 + size_t(d)] = P.x[size_t(k) * 3 + size_t((d + 2) % 3)];
                    P.w[size_t(k + 1)] = P.w[size_t(k + 2)] = P.w[size_t(k)];
                }
    }
    wr->errors = 0;
    tr.begin_case();
    Cluster<T> built = build<T>(P), other = r.chance(50) ? build<T>(P) : build<T>(random_params(r, 5));
    wr->errors = 0;
    built = build<T>(P); // assigned over an existing tree
    bool moved = r.chance(50);
    if (moved)
        other = std::move(built);
    Cluster<T> &root = moved ? other : built;
    bool err        = wr->errors > 0;
    bool have       = !root.get_clusters_on_partition().empty() && !err;
    {
        Ev e("tree");
        e.b("err", err);
        put_tree(e, root, P);
        if (suite == "C01") { // clusters of another tree, equal in everything else
            Cluster<T> twin = build<T>(P);
            auto d1 = dump(root, P.dim), d2 = dump(twin, P.dim);
            int k = 0;
            for (size_t a = 0; a < d1.nodes.size() && a < d2.nodes.size() && a < 40; a++) k += *d1.nodes[a] == *d2.nodes[a] || *d2.nodes[a] == *d1.nodes[a];
            e.i("twin", k);
        }
        if (suite != "C06") tr.put(e);
        tr.add_weight(100L * P.N);
    }
    if (suite == "C06") { // the same geometry at another scale: the cuts are those of the integer points
        Params Z = P;
        int e2   = r.chance(50) ? 0 : r.range(-40, 20);
        for (auto &v : Z.x) v = std::ldexp(v, e2);
        for (auto &v : Z.rad) v = std::ldexp(v, e2);
        wr->errors      = 0;
        Cluster<T> tree = build<T>(Z);
        Params Q        = P; // centres and radii are not looked at
        Ev e("tree");
        e.b("err", wr->errors > 0);
        std::string ds = "[";
        for (auto &v : directions) {
            ds += ds.size() > 1 ? ",[" : "[";
            for (size_t k = 0; k < v.size(); k++) ds += (k ? "," : "") + std::to_string(v[k]);
            ds += "]";
        }
        put_tree(e, tree, Q);
        e.s("strategy", P.direction == 1 ? "box" : "axis").raw("dirs", ds + "]").i("scale", e2);
        tr.put(e);
    }
    if (suite == "C04" && have) {
        for (int rep = 0; rep < 2; rep++) {
            conv<double>(tr, r, root, "user_to_cluster", -1, 0);
            conv<cd>(tr, r, root, "cluster_to_user", -1, 1);
            conv<cd>(tr, r, root, "global_to_root_cluster", -1, 2);
            conv<double>(tr, r, root, "root_cluster_to_global", -1, 3);
        }
        if (root.is_permutation_local())
            for (size_t p = 0; p < root.get_clusters_on_partition().size(); p++) {
                conv<cd>(tr, r, root, "user_to_cluster", int(p), 0);
                conv<double>(tr, r, root, "cluster_to_user", int(p), 1);
                conv<double>(tr, r, root, "local_to_local_cluster", int(p), 4);
                conv<cd>(tr, r, root, "local_cluster_to_local", int(p), 5);
            }
    }
    if (suite == "C05" && have) {
        if (r.chance(50))
            root.set_minclustersize(P.mcs);
        unsigned want = root.get_minclustersize();
        std::string f = dir + "/t" + std::to_string(c);
        save_cluster_tree(root, f);
        Cluster<T> back = read_cluster_tree<T>(f + "_cluster_tree_properties.csv", f + "_cluster_tree.csv");
        for (int rep = 0; rep < 2; rep++) {
            Ev e("reread");
            e.i("wantmcs", long(want)).i("gen", rep + 1);
            put_tree(e, rep == 0 ? back : back, P);
            tr.put(e);
            if (rep == 0) { // save again, read again
                save_cluster_tree(back, f + "b");
                back = read_cluster_tree<T>(f + "b_cluster_tree_properties.csv", f + "b_cluster_tree.csv");
            }
        }
        conv<double>(tr, r, back, "user_to_cluster", -1, 0);
        conv<double>(tr, r, back, "cluster_to_user", -1, 1);
        // the same at another scale of the coordinates: relative accuracy of what is read back
        {
            Params Z   = P;
            int e2     = r.range(-34, 14);
            for (auto &v : Z.x) v = std::ldexp(v, e2);
            for (auto &v : Z.rad) v = std::ldexp(v, e2);
            errors_before(wr);
            Cluster<T> small = build<T>(Z);
            if (!small.get_clusters_on_partition().empty() && wr->errors == 0) {
                save_cluster_tree(small, f + "z");
                Cluster<T> sb = read_cluster_tree<T>(f + "z_cluster_tree_properties.csv", f + "z_cluster_tree.csv");
                std::vector<double> a, b;
                auto collect = [&](const Cluster<T> &c0, std::vector<double> &v) {
                    preorder_tree_traversal(c0, [&v](const Cluster<T> &n) {
                        v.push_back(n.get_radius());
                        for (auto x : n.get_center()) v.push_back(x);
                    });
                };
                collect(small, a);
                collect(sb, b);
                std::vector<int> ia, ib;
                for (size_t k = 0; k < std::max(a.size(), b.size()); k++) {
                    double u = k < a.size() ? a[k] : 1e300, v = k < b.size() ? b[k] : -1e300;
                    int ex   = u == 0 ? 0 : 4 - int(std::floor(std::log10(std::abs(u))));
                    double m = std::pow(10., ex);
                    ia.push_back(qs(u * m, 1));
                    ib.push_back(qs(v * m, 1));
                }
                Ev e("digits");
                e.seq("a", ia).seq("b", ib);
                tr.put(e);
            }
        }
        // geometry table
        std::vector<int> depths;
        for (unsigned dd = 0; dd <= root.get_maximal_depth(); dd++)
            if (r.chance(60))
                depths.push_back(int(dd));
        if (r.chance(50))
            std::reverse(depths.begin(), depths.end());
        std::vector<T> x(P.x.begin(), P.x.end());
        save_clustered_geometry(root, P.dim, x.data(), f + "_geo", depths);
        std::ifstream in(f + "_geo.csv");
        std::string line, rows = "[", groups = "[";
        int nrow = 0;
        while (std::getline(in, line)) {
            std::vector<double> v = parse_row(line, 1);
            std::string s         = "[";
            for (size_t k = 0; k < v.size(); k++)
                s += (k ? "," : "") + std::to_string(q(v[k]));
            s += "]";
            std::string &dst = nrow < P.dim ? rows : groups;
            dst += (dst.size() > 1 ? "," : "") + s;
            nrow++;
        }
        Ev e("geom");
        e.seq("depths", depths).raw("rows", rows + "]").raw("groups", groups + "]");
        tr.put(e);
    }
}

int main(int argc, char **argv) {
    std::string suite = arg(argc, argv, "--suite", "C01"), out = arg(argc, argv, "--out", "/tmp/trace"), dir = arg(argc, argv, "--dir", "/tmp");
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 20), shards = argi(argc, argv, "--shards", 1);
    auto wr = std::make_shared<CountingWriter>();
    Logger::get_instance().set_current_writer(wr);
    Trace tr(out, int(shards));
    for (int c = 0; c < cases; c++) {
        Rng r(uint64_t(seed) * 1000003 + uint64_t(c));
        run_case<double>(tr, r, suite == "C03" ? c : c + 2, suite, dir, wr);
    }
    return 0;
}
