// Distributed operators on several MPI processes: layouts, combinations of local operators, products, helpers, builders.
#include "mpigen.hpp"
// ---- local operators
template <typename T>
struct LOp {
    int p = 0, c0 = 0, m = 0, n = 0;
    char sym = 'N', uplo = 'L';
    bool hm = false, tperm = false, sperm = false;
    std::vector<int> tp, sp;
    std::vector<T> M;
    std::shared_ptr<Cl> own_t, own_s;
    const Cl *t = nullptr, *s = nullptr;
    IntOp<T> g;
    HObj<T> h;
    std::shared_ptr<Matrix<T>> d;
    std::shared_ptr<VirtualLocalOperator<T>> op;
    std::string json() const {
        Ev e("x");
        e.i("p", p + 1).i("c0", c0).c("sym", sym).c("uplo", uplo == 'U' ? 'U' : 'L').seq("tp", tp).seq("sp", sp).mat("M", M, m, n);
        return e.str();
    }
};
template <typename T>
struct Case {
    std::shared_ptr<Cl> T_, S_;
    char sym = 'N', uplo = 'N';
    bool local = true; // renumbering local to the parts
    std::vector<std::shared_ptr<LOp<T>>> ops;
    std::shared_ptr<PartitionFromCluster<T, double>> P, Q;
    std::shared_ptr<DistributedOperator<T>> D;
    DistributedOperator<T> *A = nullptr;
    std::vector<int> to, ts, so, ss;
    int nt = 0, ns = 0;
    bool whole = false; // the global matrix is given
    std::vector<T> W;
    std::string scope = "all";
    void shape() {
        nt = T_->get_size();
        ns = S_->get_size();
        for (auto c : T_->get_clusters_on_partition()) to.push_back(c->get_offset()), ts.push_back(c->get_size());
        for (auto c : S_->get_clusters_on_partition()) so.push_back(c->get_offset()), ss.push_back(c->get_size());
    }
    void put(Trace &tr) const {
        if (rk) return;
        Ev e("layout");
        e.i("np", np).i("nt", nt).i("ns", ns).seq("to", to).seq("ts", ts).seq("so", so).seq("ss", ss).seq("pt", T_->get_permutation()).seq("ps", S_->get_permutation()).c("sym", sym);
        std::vector<std::string> o;
        for (auto &x : ops) o.push_back(x->json());
        e.raw("ops", list(o)).s("scope", scope);
        if (whole) e.mat("whole", W, nt, ns);
        tr.put(e);
    }
};
static std::vector<int> local_perm(const Cl &c) {
    std::vector<int> v;
    for (int i = 0; i < c.get_size(); i++) v.push_back(c.get_permutation()[c.get_offset() + i] - c.get_offset());
    return v;
}
static std::vector<int> iota(int n) {
    std::vector<int> v(n);
    for (int i = 0; i < n; i++) v[i] = i;
    return v;
}
// an operator on the rows of process p and the columns of cluster s (null: a renumbered range of its own)
template <typename T>
std::shared_ptr<LOp<T>> make_op(Rng &r0, Case<T> &c, int p, const Cl *s, char sym, const IntOp<T> *global, bool strip = false) {
    Rng r(r0.next()); // own stream: only its process builds it
    auto o = std::make_shared<LOp<T>>();
    o->p   = p;
    o->sym = sym;
    o->uplo = sym == 'N' ? 'N' : (c.uplo != 'N' ? c.uplo : "LU"[r.range(0, 1)]);
    o->hm  = r.chance(50);
    o->t   = &c.T_->get_cluster_on_partition(p);
    o->s   = s;
    std::vector<int> rowmap, colmap; // numbering of the operator's own trees -> partition numbering -> user
    bool rm = false, cm = false;
    if (sym == 'N' && r.chance(25)) { // rows in a numbering of their own
        o->own_t = std::make_shared<Cl>(tree_with_parts(r, c.ts));
        o->t     = &o->own_t->get_cluster_on_partition(p);
        o->tperm = rm = true;
        rowmap   = c.T_->get_permutation();
    }
    if (!s) {
        int q    = r.range(0, np - 1);
        o->own_s = std::make_shared<Cl>(tree_with_parts(r, c.ss));
        o->s     = &o->own_s->get_cluster_on_partition(q);
        if (global) o->s = &o->own_s->get_root_cluster();
        else if (r.chance(30)) o->s = &o->own_s->get_root_cluster();
        o->sperm = cm = true;
        colmap   = c.S_->get_permutation();
        if (o->s->is_root() && !global) {}
    }
    o->c0 = o->s->get_offset();
    o->m  = o->t->get_size();
    o->n  = o->s->get_size();
    o->tp = o->tperm ? local_perm(*o->t) : iota(o->m);
    o->sp = o->sperm ? local_perm(*o->s) : iota(o->n);
    if (global)
        o->g = remap(*global, rm ? &rowmap : nullptr, cm ? &colmap : nullptr);
    else
        o->g = int_op<T>(r, c.nt, c.ns, sym == 'N' || !(o->t == o->s || strip) ? 'N' : sym);
    bool same = o->t == o->s || strip; // the symmetric block has one tree
    if (sym != 'N' && !same) {          // some square block: content of its own
        o->hm   = false;
        auto gg = int_op<T>(r, o->m, o->m, sym);
        o->M    = gg.A;
    } else {
        o->M.resize(size_t(o->m) * o->n);
        auto &pt = o->t->get_permutation();
        auto &ps = o->s->get_permutation();
        for (int j = 0; j < o->n; j++)
            for (int i = 0; i < o->m; i++) o->M[size_t(j) * o->m + i] = o->g(pt[o->t->get_offset() + i], ps[o->c0 + j]);
    }
    if (strip) o->hm = true;
    char lsym = o->sym;
    if (sym != 'N' && !o->hm) // a dense symmetric operator only has one triangle
        for (int j = 0; j < o->n; j++)
            for (int i = 0; i < o->m; i++)
                if (o->uplo == 'U' ? i > j : i < j) o->M[size_t(j) * o->m + i] = rnd<T>(r, -9, 9);
    HOpt h = ropt(r);
    if (rk == p) {
        omp_set_num_threads(r.range(1, 3));
        if (o->hm) {
            h.sym  = o->sym;
            h.uplo = o->uplo;
            h.cons = true;
            if (strip || sym != 'N') h.tp = h.sp = p;
            else if (r.chance(50)) {
                h.mint = r.range(0, 2);
            }
            o->h = build_h<T>(strip ? *c.T_ : *o->t, *o->s, o->g, h);
            o->op = std::make_shared<LocalHMatrix<T, double>>(*o->h.h, *o->t, *o->s, o->sym, o->uplo, o->tperm, o->sperm);
        } else {
            o->d  = std::make_shared<Matrix<T>>(to_matrix(o->M, o->m, o->n));
            o->op = std::make_shared<LocalDenseMatrix<T, double>>(*o->d, *o->t, *o->s, o->sym, o->uplo, o->tperm, o->sperm);
        }
    }
    if (strip) o->sym = 'N'; // what it stands for is given in full
    (void)lsym;
    return o;
}
template <typename T>
char pick_sym(Rng &r) { return r.chance(50) ? 'N' : (is_c<T>::value && r.chance(50) ? 'H' : 'S'); }
template <typename T>
void fill_ops(Rng &r, Case<T> &c, const std::string &shape) {
    if (c.sym != 'N') {
        auto g = int_op<T>(r, c.nt, c.nt, c.sym);
        int kind = shape == "strip" ? 0 : shape == "blocks" ? 2 : r.range(0, 3);
        for (int p = 0; p < np; p++) {
            auto &part = c.T_->get_cluster_on_partition(p);
            if (kind == 0)
                c.ops.push_back(make_op<T>(r, c, p, &c.S_->get_root_cluster(), 'N', &g));
            else if (kind == 1)
                c.ops.push_back(make_op<T>(r, c, p, &c.S_->get_root_cluster(), c.sym, &g, true));
            else if (kind == 3)
                c.ops.push_back(make_op<T>(r, c, p, nullptr, 'N', &g));
            else
                for (int q = 0; q < np; q++) {
                    auto &src = c.S_->get_cluster_on_partition(q);
                    c.ops.push_back(make_op<T>(r, c, p, &src, q == p && r.chance(70) ? c.sym : 'N', &g));
                }
            (void)part;
        }
        return;
    }
    for (int p = 0; p < np; p++) {
        int k = shape == "strip" ? 1 : shape == "blocks" ? np : shape == "over" ? 2 : r.range(0, 3);
        for (int x = 0; x < k; x++) {
            std::vector<const Cl *> nodes{&c.S_->get_root_cluster()};
            for (size_t z = 0; z < nodes.size(); z++)
                for (auto &ch : nodes[z]->get_children()) nodes.push_back(ch.get());
            const Cl *s = shape == "strip" ? nodes[0] : shape == "blocks" ? &c.S_->get_cluster_on_partition(x) : shape == "over" ? nodes[r.range(0, int(nodes.size()) - 1)]
                          : r.chance(25)  ? nullptr
                          : r.chance(30)  ? nodes[0]
                                          : r.pick(nodes);
            char sym = 'N';
            if (s && r.chance(30)) { // a block stored as a triangle, where a square one fits
                std::vector<const Cl *> sq;
                for (auto q : nodes)
                    if (q->get_size() == c.ts[p] && (q->is_root() || q->get_rank() >= 0 || true)) sq.push_back(q);
                if (!sq.empty()) {
                    s   = r.pick(sq);
                    sym = is_c<T>::value && r.chance(50) ? 'H' : 'S';
                }
            }
            c.ops.push_back(make_op<T>(r, c, p, s, sym, nullptr));
        }
    }
}
template <typename T>
void assemble(Case<T> &c) {
    c.P = std::make_shared<PartitionFromCluster<T, double>>(*c.T_);
    c.Q = std::make_shared<PartitionFromCluster<T, double>>(*c.S_);
    c.D = std::make_shared<DistributedOperator<T>>(*c.P, *c.Q, c.sym, c.uplo, MPI_COMM_WORLD);
    for (auto &o : c.ops)
        if (o->p == rk) c.D->add_local_operator(o->op.get());
    c.A = c.D.get();
}
template <typename T>
T hole(Rng &r) { return r.chance(50) ? T(std::numeric_limits<double>::quiet_NaN()) : T(7); }
template <typename T>
std::vector<T> rows_major(const std::vector<T> &x, int n, int mu) {
    std::vector<T> y(x.size());
    for (int j = 0; j < mu; j++)
        for (int i = 0; i < n; i++) y[size_t(i) * mu + j] = x[size_t(j) * n + i];
    return y;
}
template <typename T>
std::vector<T> cols_major(const std::vector<T> &x, int n, int mu) {
    std::vector<T> y(x.size());
    for (int j = 0; j < mu; j++)
        for (int i = 0; i < n; i++) y[size_t(j) * n + i] = x[size_t(i) * mu + j];
    return y;
}
// one product; `in`, `out`: G or L
template <typename T>
void product(Trace &tr, Rng &r, Case<T> &c, char t, char in, char out, int wait, bool log) {
    DistributedOperator<T> &A = *c.A;
    const std::vector<int> &io = t == 'N' ? c.so : c.to, &is = t == 'N' ? c.ss : c.ts, &os = t == 'N' ? c.ts : c.ss;
    (void)io;
    int ni = t == 'N' ? c.ns : c.nt, no = t == 'N' ? c.nt : c.ns;
    bool matrix = r.chance(60), internal = in != out || (in == 'L' && r.chance(40));
    int mu      = matrix ? r.some(1, 4) : 1;
    bool user   = !internal && r.chance(60) && (in == 'G' || c.local);
    bool work   = in == 'L' && out == 'L' && r.chance(40);
    A.use_permutation() = internal ? r.chance(50) : user;
    // inputs, the same on every process
    std::vector<std::vector<T>> X;
    for (int k = 0; k < (in == 'G' ? 1 : np); k++) X.push_back(rvec<T>(r, (in == 'G' ? ni : is[k]) * mu, -2, 2));
    std::vector<T> x = X[in == 'G' ? 0 : rk];
    int nx = in == 'G' ? ni : is[rk], ny = out == 'G' ? no : os[rk];
    std::vector<T> xin = internal && matrix ? rows_major(x, nx, mu) : x, x0 = xin;
    std::vector<T> y(size_t(ny) * mu, hole<T>(r)), w;
    if (work) w.assign(size_t(t == 'N' || c.sym != 'N' ? c.ns : c.ns + np * c.ss[rk]) * mu, hole<T>(r));
    T *wp         = work ? w.data() : nullptr;
    std::string f = std::string(internal ? "internal_" : "") + (matrix ? "matrix" : "vector") + "_product_" + (t == 'T' ? "transp_" : "") + (in == 'G' ? "global" : "local") + "_to_" + (out == 'G' ? "global" : "local");
    if (wait >= 0) usleep(unsigned(wait) * 120);
    Watch wt;
    if (f == "vector_product_global_to_global") A.vector_product_global_to_global(xin.data(), y.data());
    else if (f == "matrix_product_global_to_global") A.matrix_product_global_to_global(xin.data(), y.data(), mu);
    else if (f == "vector_product_transp_global_to_global") A.vector_product_transp_global_to_global(xin.data(), y.data());
    else if (f == "matrix_product_transp_global_to_global") A.matrix_product_transp_global_to_global(xin.data(), y.data(), mu);
    else if (f == "vector_product_local_to_local") A.vector_product_local_to_local(xin.data(), y.data(), wp);
    else if (f == "matrix_product_local_to_local") A.matrix_product_local_to_local(xin.data(), y.data(), mu, wp);
    else if (f == "vector_product_transp_local_to_local") A.vector_product_transp_local_to_local(xin.data(), y.data(), wp);
    else if (f == "matrix_product_transp_local_to_local") A.matrix_product_transp_local_to_local(xin.data(), y.data(), mu, wp);
    else if (f == "internal_vector_product_global_to_local") A.internal_vector_product_global_to_local(xin.data(), y.data());
    else if (f == "internal_matrix_product_global_to_local") A.internal_matrix_product_global_to_local(xin.data(), y.data(), mu);
    else if (f == "internal_vector_product_transp_local_to_global") A.internal_vector_product_transp_local_to_global(xin.data(), y.data());
    else if (f == "internal_matrix_product_transp_local_to_global") A.internal_matrix_product_transp_local_to_global(xin.data(), y.data(), mu);
    else if (f == "internal_vector_product_local_to_local") A.internal_vector_product_local_to_local(xin.data(), y.data(), wp);
    else if (f == "internal_matrix_product_local_to_local") A.internal_matrix_product_local_to_local(xin.data(), y.data(), mu, wp);
    else if (f == "internal_vector_product_transp_local_to_local") A.internal_vector_product_transp_local_to_local(xin.data(), y.data(), wp);
    else if (f == "internal_matrix_product_transp_local_to_local") A.internal_matrix_product_transp_local_to_local(xin.data(), y.data(), mu, wp);
    else std::abort();
    recording = false;
    bool kept = xin == x0;
    if (internal && matrix) y = cols_major(y, ny, mu);
    auto Y = collect(jmat(y.data(), ny, mu));
    kept   = sum_all(kept ? 0 : 1) == 0;
    if (!log) return;
    wt.stop(tr);
    if (rk) return;
    std::vector<std::string> xs;
    for (size_t k = 0; k < X.size(); k++) xs.push_back(jmat(X[k].data(), in == 'G' ? ni : is[k], mu));
    Ev e("prod");
    e.s("f", f).c("t", t).c("in", in).c("out", out).s("num", user ? "user" : "part").i("mu", mu).b("work", work).raw("X", list(xs)).raw("Y", list(Y)).i("err", wt.err).b("kept", kept);
    tr.put(e);
}
static bool in_suite(char t, char in, char out) { return suite == "D01" ? t == 'N' && in == 'G' : suite == "D02" ? t == 'N' && in == 'L' : suite == "D03" ? t == 'T' : true; }
template <typename T>
void some_product(Trace &tr, Rng &r, Case<T> &c) {
    for (int g = 0; g < 40; g++) {
        char t = "NT"[r.range(0, 1)], in = "GL"[r.range(0, 1)], out = in;
        if (r.chance(30)) out = t == 'N' ? 'L' : 'G', in = t == 'N' ? 'G' : 'L';
        if (!in_suite(t, in, out)) continue;
        product(tr, r, c, t, in, out, -1, true);
        return;
    }
}
template <typename T>
void sub_product(Trace &tr, Rng &r, Case<T> &c) {
    int mu = r.some(1, 3), off = r.range(0, c.ns - 1), size = r.range(0, c.ns - off);
    if (r.chance(30)) { // the columns of a local operator or of a part, exactly or nearly
        std::vector<std::pair<int, int>> v;
        for (int k = 0; k < np; k++) v.push_back({c.so[k], c.ss[k]});
        for (auto &o : c.ops) v.push_back({o->c0, o->n});
        auto x = r.pick(v);
        off    = std::max(0, x.first + (r.chance(70) ? 0 : r.range(-1, 1)));
        size   = std::min(c.ns - off, std::max(0, x.second + (r.chance(70) ? 0 : r.range(-1, 1))));
    }
    auto x = rvec<T>(r, size * mu, -2, 2);
    auto xin = rows_major(x, size, mu);
    std::vector<T> y(size_t(c.ts[rk]) * mu, hole<T>(r));
    Watch wt;
    c.A->internal_sub_matrix_product_to_local(xin.data(), y.data(), mu, off, size);
    recording = false;
    y      = cols_major(y, c.ts[rk], mu);
    auto Y = collect(jmat(y.data(), c.ts[rk], mu));
    wt.stop(tr);
    if (rk) return;
    Ev e("sub");
    e.i("offset", off).i("size", size).raw("X", "[" + jmat(x.data(), size, mu) + "]").raw("Y", list(Y)).i("err", wt.err);
    tr.put(e);
}
// a local operator on its own
template <typename T>
void alone(Trace &tr, Rng &r, Case<T> &c) {
    if (c.ops.empty()) return;
    size_t k = size_t(r.range(0, int(c.ops.size()) - 1));
    auto &o  = *c.ops[k];
    char t   = "NT"[r.range(0, 1)];
    bool one = r.chance(35);
    int mu   = one ? 1 : r.some(1, 4);
    T al = rscal<T>(r), be = rscal<T>(r);
    int nx = t == 'N' ? c.ns : o.m, ny = t == 'N' ? o.m : c.ns;
    auto X = rvec<T>(r, nx * mu, -2, 2), Y0 = rvec<T>(r, ny * mu, -2, 2), Y = Y0;
    Rng mine(r.next()); // drawn from by the owner only
    Watch wt;
    if (o.p == rk) {
        auto x = rows_major(X, nx, mu), y = rows_major(Y0, ny, mu);
        if (t == 'N') // the rest of the input is nobody's business
            for (int i = 0; i < nx; i++)
                if (i < o.c0 || i >= o.c0 + o.n)
                    for (int j = 0; j < mu; j++) x[size_t(i) * mu + j] = hole<T>(mine);
        int lo = t == 'N' ? 0 : o.c0, hi = lo + (t == 'N' ? o.m : o.n);
        if (be == T(0))
            for (int i = lo; i < hi; i++)
                for (int j = 0; j < mu; j++) y[size_t(i) * mu + j] = T(5);
        const VirtualLocalOperator<T> &A = *o.op;
        if (one && t == 'N') A.add_vector_product_global_to_local(al, x.data(), be, y.data());
        else if (one) A.add_vector_product_transp_local_to_global(al, x.data(), be, y.data());
        else if (t == 'N') A.add_matrix_product_global_to_local(al, x.data(), be, y.data(), mu);
        else A.add_matrix_product_transp_local_to_global(al, x.data(), be, y.data(), mu);
        Y = cols_major(y, ny, mu);
    }
    recording = false;
    auto Z   = collect(jmat(Y.data(), ny, mu));
    wt.stop(tr);
    if (rk) return;
    Ev e("alone");
    e.i("k", int(k) + 1).c("t", t).scal("alpha", al).scal("beta", be).mat("X", X, nx, mu).mat("Y0", Y0, ny, mu).raw("Y", Z[size_t(o.p)]).i("err", wt.err);
    tr.put(e);
}
template <typename T>
void together(Trace &tr, Rng &r, Case<T> &c) {
    bool tgt = r.chance(50);
    auto &s  = tgt ? c.ts : c.ss;
    int n = tgt ? c.nt : c.ns, mu = r.some(1, 3);
    std::vector<std::vector<T>> X;
    for (int k = 0; k < np; k++) X.push_back(rvec<T>(r, s[k] * mu, -9, 9));
    auto xin = rows_major(X[rk], s[rk], mu);
    std::vector<T> y(size_t(n) * mu, hole<T>(r));
    Watch wt;
    if (tgt) c.A->local_to_global_target(xin.data(), y.data(), mu);
    else c.A->local_to_global_source(xin.data(), y.data(), mu);
    recording = false;
    y      = cols_major(y, n, mu);
    auto Y = collect(jmat(y.data(), n, mu));
    wt.stop(tr);
    if (rk) return;
    std::vector<std::string> xs;
    for (int k = 0; k < np; k++) xs.push_back(jmat(X[k].data(), s[k], mu));
    Ev e("gather");
    e.s("side", tgt ? "t" : "s").raw("X", list(xs)).raw("Y", list(Y));
    tr.put(e);
}
template <typename T>
void part(Trace &tr, Case<T> &c, const std::string &what, const HMatrix<T> *h, bool wide) {
    std::string R = "{\"r0\":-1,\"nr\":0,\"c0\":0,\"nc\":0}", M = "{\"m\":0,\"n\":0,\"d\":[],\"e\":[]}";
    if (h) {
        auto v = full_dense<T>(*h);
        M      = jmat(v.data(), h->nb_rows(), h->nb_cols());
        R      = "{\"r0\":" + std::to_string(h->get_target_cluster().get_offset()) + ",\"nr\":" + std::to_string(h->nb_rows()) + ",\"c0\":" + std::to_string(h->get_source_cluster().get_offset()) + ",\"nc\":" + std::to_string(h->nb_cols()) + "}";
    }
    auto Rs = collect(R), Ms = collect(M);
    if (rk) return;
    Ev e("part");
    e.s("what", what).raw("R", list(Rs)).raw("Y", list(Ms)).b("wide", wide);
    tr.put(e);
}
template <typename T>
void random_trees(Rng &r, Case<T> &c, bool same) {
    int n = std::max(np, r.chance(20) ? r.range(1, 8) : r.range(5, 26)), m = std::max(np, r.chance(20) ? r.range(1, 8) : r.range(5, 26));
    if (n < 2) n = 2;
    if (m < 2) m = 2;
    c.local = r.chance(70) || suite == "D02";
    c.T_    = part_tree(r, n, c.local);
    c.S_    = same ? c.T_ : part_tree(r, m, c.local);
    c.local = c.T_->is_permutation_local() && c.S_->is_permutation_local();
    c.shape();
}
// an operator from a ready-made builder
template <typename T>
void built(Trace &tr, Rng &r) {
    Case<T> c;
    c.sym = pick_sym<T>(r);
    if (c.sym != 'N') c.uplo = "LU"[r.range(0, 1)];
    random_trees(r, c, c.sym != 'N' || r.chance(30));
    c.local = c.T_->is_permutation_local() && c.S_->is_permutation_local();
    int kind   = r.range(0, 2);
    double eta = r.chance(50) ? 0 : 0.5 * r.range(1, 20), eps = EXACT;
    IntOp<T> g = int_op<T>(r, c.nt, c.ns, c.sym);
    if (kind < 2 && eta > 0) { // content the default compressor represents exactly
        g.k = 1;
        g.P.resize(c.nt);
        g.Q.resize(c.ns);
        for (auto &v : g.P) do v = rnd<T>(r, -2, 2); while (v == T(0));
        for (auto &v : g.Q) do v = rnd<T>(r, -2, 2); while (v == T(0));
        if (c.sym != 'N')
            for (int i = 0; i < c.nt; i++) g.Q[i] = c.sym == 'H' ? cj(g.P[i]) : g.P[i];
        for (int j = 0; j < c.ns; j++)
            for (int i = 0; i < c.nt; i++) g.A[size_t(j) * c.nt + i] = g.P[i] * g.Q[j];
    }
    c.whole = true;
    c.W     = g.A;
    c.scope = kind == 1 ? "diag" : "all";
    bool internal = r.chance(50);
    Rng mine(r.next());
    UserGen<T> ug(g);
    ClusterGen<T> cg(g, *c.T_, *c.S_);
    const VirtualInternalGenerator<T> &ig = cg;
    const VirtualGenerator<T> &vg         = ug;
    std::shared_ptr<DefaultApproximationBuilder<T, double>> a;
    std::shared_ptr<DefaultLocalApproximationBuilder<T, double>> l;
    std::shared_ptr<DistributedOperatorFromHMatrix<T, double>> d;
    const HMatrix<T> *h = nullptr, *diag = nullptr;
    errors().errors = 0;
    if (kind == 0) {
        a = internal ? std::make_shared<DefaultApproximationBuilder<T, double>>(ig, *c.T_, *c.S_, eps, eta, c.sym, c.uplo, MPI_COMM_WORLD) : std::make_shared<DefaultApproximationBuilder<T, double>>(vg, *c.T_, *c.S_, eps, eta, c.sym, c.uplo, MPI_COMM_WORLD);
        c.A = &a->distributed_operator, h = &a->hmatrix, diag = a->block_diagonal_hmatrix;
    } else if (kind == 1) {
        l = internal ? std::make_shared<DefaultLocalApproximationBuilder<T, double>>(ig, *c.T_, *c.S_, eps, eta, c.sym, c.uplo, MPI_COMM_WORLD) : std::make_shared<DefaultLocalApproximationBuilder<T, double>>(vg, *c.T_, *c.S_, eps, eta, c.sym, c.uplo, MPI_COMM_WORLD);
        c.A = &l->distributed_operator, h = &l->hmatrix, diag = l->block_diagonal_hmatrix;
    } else {
        HOpt o = ropt(mine);
        HMatrixTreeBuilder<T, double> b(*c.T_, *c.S_, eps, o.eta2 / 2., c.sym, c.uplo, -1, rk, rk);
        b.set_low_rank_generator(std::make_shared<ExactCompressor<T>>(g, *c.T_, *c.S_, o.salt, o.refuse));
        b.set_admissibility_condition(std::make_shared<Admis>(o.mode, o.salt, o.percent, true));
        d   = internal ? std::make_shared<DistributedOperatorFromHMatrix<T, double>>(ig, *c.T_, *c.S_, b, MPI_COMM_WORLD) : std::make_shared<DistributedOperatorFromHMatrix<T, double>>(vg, *c.T_, *c.S_, b, MPI_COMM_WORLD);
        c.A = &d->distributed_operator, h = &d->hmatrix, diag = d->block_diagonal_hmatrix;
    }
    if (kind == 1 && c.sym == 'N') { // complete it with operators off the diagonal
        for (int p = 0; p < np; p++)
            for (int q = 0; q < np; q++)
                if (q != p && r.chance(60)) c.ops.push_back(make_op<T>(r, c, p, &c.S_->get_cluster_on_partition(q), 'N', nullptr));
        for (auto &o : c.ops)
            if (o->p == rk) c.A->add_local_operator(o->op.get());
    }
    c.put(tr);
    // with two trees the block diagonal of the strip is only a node if the block structure reaches it
    part(tr, c, "hierarchical matrix", h, kind != 1);
    int have = sum_all(diag ? 1 : 0);
    if (have == np)
        part(tr, c, "diagonal block", diag, false);
    else if (c.sym != 'N' || kind == 1)
        part(tr, c, "diagonal block (absent)", diag, false);
    for (int k = r.range(1, 3); k > 0; k--) some_product(tr, r, c);
    if (r.chance(50)) sub_product(tr, r, c);
}
template <typename T>
void custom(Trace &tr, Rng &r) {
    Case<T> c;
    c.sym = pick_sym<T>(r);
    if (c.sym != 'N') c.uplo = "LU"[r.range(0, 1)];
    random_trees(r, c, c.sym != 'N' || r.chance(30));
    fill_ops(r, c, c.sym != 'N' ? "strip" : "strip");
    std::shared_ptr<LOp<T>> o;
    for (auto &x : c.ops)
        if (x->p == rk) o = x;
    CustomApproximationBuilder<T, double> b(*c.T_, *c.S_, c.sym, c.uplo, MPI_COMM_WORLD, *o->op);
    c.A = &b.distributed_operator;
    c.put(tr);
    for (int k = r.range(1, 3); k > 0; k--) some_product(tr, r, c);
    sub_product(tr, r, c);
}
template <typename T>
void random_case(Trace &tr, Rng &r) {
    tr.begin_case();
    if (suite == "D04" && r.chance(40)) {
        if (r.chance(80)) built<T>(tr, r);
        else custom<T>(tr, r);
        return;
    }
    Case<T> c;
    c.sym = pick_sym<T>(r);
    if (c.sym != 'N') c.uplo = "LU"[r.range(0, 1)];
    random_trees(r, c, c.sym != 'N' || r.chance(30));
    fill_ops(r, c, "any");
    assemble(c);
    c.put(tr);
    for (int k = r.range(2, 4); k > 0; k--)
        if (suite == "D05") alone(tr, r, c);
        else if (suite != "D04") some_product(tr, r, c);
        else if (r.chance(75)) sub_product(tr, r, c);
        else together(tr, r, c);
}
static std::vector<int> ints(const std::string &s) {
    std::vector<int> v;
    std::istringstream is(s);
    for (std::string x; std::getline(is, x, ',');)
        if (!x.empty()) v.push_back(std::stoi(x));
    return v;
}
// a behaviour of MCDist: symmetry; shape; part sizes; calls; order in which the processes enter them
template <typename T>
void replay(Trace &tr, Rng &r, const std::vector<std::string> &f) {
    Case<T> c;
    auto ts = ints(f[2]), ss = ints(f[3]);
    c.sym = f[0][0] == 'N' ? 'N' : is_c<T>::value && r.chance(50) ? 'H' : 'S';
    if (c.sym != 'N') c.uplo = "LU"[r.range(0, 1)];
    c.T_    = std::make_shared<Cl>(tree_with_parts(r, ts));
    c.S_    = c.sym != 'N' ? c.T_ : std::make_shared<Cl>(tree_with_parts(r, ss));
    c.local = c.T_->is_permutation_local() && c.S_->is_permutation_local();
    c.shape();
    tr.begin_case();
    fill_ops(r, c, f[1] == "uneven" ? "any" : f[1]);
    assemble(c);
    c.put(tr);
    std::vector<std::string> prog;
    std::istringstream is(f[4]);
    for (std::string x; std::getline(is, x, ',');)
        if (!x.empty()) prog.push_back(x);
    auto order = ints(f[5]);
    for (size_t k = 0; k < prog.size(); k++) {
        // how many processes enter call k before this one
        int before = 0;
        std::vector<size_t> seen(np, 0);
        for (int x : order) {
            if (x < 1 || x > np) continue;
            if (seen[x - 1]++ != k) continue;
            if (x - 1 == rk) break;
            before++;
        }
        if (suite == "D04") {
            if (prog[k][0] == 'N') sub_product(tr, r, c);
            else together(tr, r, c);
        } else
            product(tr, r, c, prog[k][0], prog[k][1], prog[k][2], before, in_suite(prog[k][0], prog[k][1], prog[k][2]));
    }
}
int main(int argc, char **argv) {
    int prov = 0;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_FUNNELED, &prov);
    MPI_Comm_rank(MPI_COMM_WORLD, &rk);
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    suite      = arg(argc, argv, "--suite", "D01");
    long seed  = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 50);
    int shards = int(argi(argc, argv, "--shards", 1));
    std::string out = arg(argc, argv, "--out", "/tmp/d_dist"), hist = arg(argc, argv, "--hist", "");
    omp_set_dynamic(0);
    errors();
    {
        Trace tr(rk ? out + ".rank" + std::to_string(rk) : out, rk ? 1 : shards);
        Rng jit(uint64_t(seed) * 977 + rk);
        jitter = &jit;
        Rng top(uint64_t(seed) * 131 + uint64_t(suite[2]) * 7 + np);
        for (long k = 0; k < cases; k++) {
            Rng r(top.next());
            if (k % 2) random_case<double>(tr, r);
            else random_case<cd>(tr, r);
        }
        if (!hist.empty()) {
            std::ifstream h(hist);
            long n = 0;
            for (std::string l; std::getline(h, l);) {
                std::vector<std::string> f;
                std::istringstream is(l);
                for (std::string x; std::getline(is, x, ';');) f.push_back(x);
                if (f.size() < 6 || int(ints(f[2]).size()) != np) continue;
                int tot = 0, tot2 = 0;
                for (int x : ints(f[2])) tot += x;
                for (int x : ints(f[3])) tot2 += x;
                if (tot < 2 || tot2 < 2) continue;
                Rng r(top.next());
                if (n++ % 2) replay<double>(tr, r, f);
                else replay<cd>(tr, r, f);
            }
        }
        if (rk)
            std::remove((out + ".rank" + std::to_string(rk) + ".0.ndjson").c_str());
    }
    MPI_Finalize();
    return 0;
}
