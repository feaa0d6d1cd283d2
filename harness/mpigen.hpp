// Shared by the drivers that run on several processes: collectives recorded and delayed, traces gathered on process 0, trees.
#ifndef VERIF_MPIGEN
#define VERIF_MPIGEN
#include "agen.hpp"
#include <htool/distributed_operator/utility.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
#include <limits>
#include <unistd.h>
using namespace vf;
using namespace htool;
static int rk = 0, np = 1;
static std::string suite;

// ---- collectives: recorded while `recording`, delayed at random
static bool recording = false;
static std::string calls;
static Rng *jitter = nullptr;
static std::vector<long> bytes(const int *c, int n, MPI_Datatype t) {
    int s = 0;
    PMPI_Type_size(t, &s);
    std::vector<long> v;
    for (int k = 0; k < n; k++) v.push_back(long(c[k]) * s);
    return v;
}
static void record(const char *kind, int root, const std::vector<long> &send, const std::vector<long> &recv) {
    if (!recording) return;
    Ev e("x");
    e.s("kind", kind).i("root", root).seq("send", send).seq("recv", recv);
    calls += (calls.empty() ? "" : ",") + e.str();
    if (jitter && jitter->chance(20)) usleep(unsigned(jitter->range(0, 300)));
}
extern "C" {
int MPI_Allgatherv(const void *s, int sc, MPI_Datatype st, void *r, const int *rc, const int *d, MPI_Datatype rt, MPI_Comm c) {
    record("allgatherv", 0, bytes(&sc, 1, st), bytes(rc, np, rt));
    return PMPI_Allgatherv(s, sc, st, r, rc, d, rt, c);
}
int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *d, MPI_Datatype rt, MPI_Comm c) {
    record("alltoallv", 0, bytes(sc, np, st), bytes(rc, np, rt));
    return PMPI_Alltoallv(s, sc, sd, st, r, rc, d, rt, c);
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
    record("allreduce", 0, bytes(&n, 1, t), {});
    return PMPI_Allreduce(s, r, n, t, o, c);
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) {
    record("reduce", root, bytes(&n, 1, t), {});
    return PMPI_Reduce(s, r, n, t, o, root, c);
}
int MPI_Bcast(void *s, int n, MPI_Datatype t, int root, MPI_Comm c) {
    record("bcast", root, bytes(&n, 1, t), {});
    return PMPI_Bcast(s, n, t, root, c);
}
int MPI_Allgather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c) {
    record("allgather", 0, bytes(&sc, 1, st), {});
    return PMPI_Allgather(s, sc, st, r, rc, rt, c);
}
int MPI_Barrier(MPI_Comm c) {
    record("barrier", 0, {}, {});
    return PMPI_Barrier(c);
}
}
// strings of all processes on process 0
static std::vector<std::string> collect(const std::string &s) {
    int n = int(s.size());
    std::vector<int> c(np), d(np);
    PMPI_Gather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
    int tot = 0;
    for (int k = 0; k < np; k++) d[k] = tot, tot += c[k];
    std::vector<char> b(size_t(tot) + 1);
    PMPI_Gatherv(s.data(), n, MPI_CHAR, b.data(), c.data(), d.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
    std::vector<std::string> v;
    for (int k = 0; k < np; k++) v.push_back(rk ? std::string() : std::string(b.data() + d[k], size_t(c[k])));
    return v;
}
static std::string list(const std::vector<std::string> &v) {
    std::string s = "[";
    for (size_t k = 0; k < v.size(); k++) s += (k ? "," : "") + v[k];
    return s + "]";
}
static int sum_all(int x) {
    int y = 0;
    PMPI_Allreduce(&x, &y, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    return y;
}
struct Watch { // collectives and errors of one call
    Watch() {
        calls.clear();
        errors().errors = 0;
        recording       = true;
    }
    int err = 0;
    void stop(Trace &tr) {
        recording = false;
        err       = sum_all(errors().errors);
        auto c    = collect("[" + calls + "]");
        if (!rk) {
            bool any = false;
            for (auto &x : c) any = any || x != "[]";
            if (any) {
                Ev e("colls");
                e.raw("C", list(c));
                tr.put(e);
            }
        }
    }
};

// ---- trees
static Cl tree_with_parts(Rng &r, const std::vector<int> &sizes) {
    ClusterTreeBuilder<double> b;
    b.set_minclustersize(r.range(1, 5));
    if (r.chance(50)) b.set_splitting_strategy(std::make_shared<RegularSplitting<double>>());
    if (r.chance(50)) b.set_direction_computation_strategy(std::make_shared<ComputeBoundingBox<double>>());
    std::vector<int> part;
    int n = 0;
    for (int s : sizes) part.push_back(n), part.push_back(s), n += s;
    int dim = r.range(1, 3);
    auto x  = points(r, n, dim, r.range(0, 7), 10);
    return b.create_cluster_tree(n, dim, x.data(), r.range(2, 3), int(sizes.size()), part.data());
}
static std::vector<int> uneven(Rng &r, int n) {
    std::vector<int> s(np, 1);
    for (int k = np; k < n; k++) s[r.chance(50) ? r.range(0, np - 1) : r.range(0, std::min(1, np - 1))]++;
    for (int k = np - 1; k > 0; k--) std::swap(s[k], s[r.range(0, k)]);
    return s;
}
static std::shared_ptr<Cl> part_tree(Rng &r, int n, bool local) {
    if (!local)
        for (int t = 0; t < 6; t++) {
            Cl c = good_tree(r, n, r.range(1, 3), r.range(1, 5), r.range(2, 3), np, false, r.range(0, 7));
            if (int(c.get_clusters_on_partition().size()) == np) return std::make_shared<Cl>(std::move(c));
        }
    return std::make_shared<Cl>(tree_with_parts(r, uneven(r, n)));
}
template <typename T>
IntOp<T> remap(const IntOp<T> &g, const std::vector<int> *rows, const std::vector<int> *cols) {
    IntOp<T> h = g;
    for (int j = 0; j < g.n; j++)
        for (int i = 0; i < g.m; i++) h.A[size_t(j) * g.m + i] = g(rows ? (*rows)[i] : i, cols ? (*cols)[j] : j);
    for (int l = 0; l < g.k; l++) {
        for (int i = 0; i < g.m; i++) h.P[i + l * g.m] = g.P[(rows ? (*rows)[i] : i) + l * g.m];
        for (int j = 0; j < g.n; j++) h.Q[j + l * g.n] = g.Q[(cols ? (*cols)[j] : j) + l * g.n];
    }
    return h;
}

#endif
