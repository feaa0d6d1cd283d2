// Stand-in for the HPDDM library, absent here: the names htool uses, with the published semantics of
// HPDDM's Schwarz preconditioners (dense local matrices), and a full GMRES in place of its Krylov methods.
#ifndef VERIF_STUB_HPDDM
#define VERIF_STUB_HPDDM
#include <cmath>
#include <complex>
#include <functional>
#include <map>
#include <mpi.h>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#define HPDDM_SCHWARZ_METHOD_RAS 0
#define HPDDM_SCHWARZ_METHOD_ORAS 1
#define HPDDM_SCHWARZ_METHOD_SORAS 2
#define HPDDM_SCHWARZ_METHOD_ASM 3
#define HPDDM_SCHWARZ_METHOD_OSM 4
#define HPDDM_SCHWARZ_METHOD_NONE 5
#define HPDDM_SCHWARZ_COARSE_CORRECTION_DEFLATED 0
#define HPDDM_SCHWARZ_COARSE_CORRECTION_ADDITIVE 1
#define HPDDM_SCHWARZ_COARSE_CORRECTION_BALANCED 2
#define HPDDM_KRYLOV_METHOD_GMRES 0
#define HPDDM_KRYLOV_METHOD_BGMRES 1
#define HPDDM_KRYLOV_METHOD_CG 2
#define HPDDM_KRYLOV_METHOD_BCG 3
#define HPDDM_KRYLOV_METHOD_GCRODR 4
#define HPDDM_KRYLOV_METHOD_BGCRODR 5
#define HPDDM_KRYLOV_METHOD_BFBCG 6
#define HPDDM_KRYLOV_METHOD_RICHARDSON 7
#define HPDDM_KRYLOV_METHOD_NONE 8
namespace HPDDM {
template <class K>
struct MatrixCSR {};
template <class K>
struct real_of {
    typedef K type;
};
template <class K>
struct real_of<std::complex<K>> {
    typedef K type;
};
inline double cj(double x) { return x; }
inline float cj(float x) { return x; }
template <class K>
std::complex<K> cj(const std::complex<K> &x) { return std::conj(x); }
template <class K>
struct mpi_type;
template <>
struct mpi_type<double> {
    static MPI_Datatype get() { return MPI_DOUBLE; }
};
template <>
struct mpi_type<std::complex<double>> {
    static MPI_Datatype get() { return MPI_CXX_DOUBLE_COMPLEX; }
};
template <>
struct mpi_type<float> {
    static MPI_Datatype get() { return MPI_FLOAT; }
};
template <>
struct mpi_type<std::complex<float>> {
    static MPI_Datatype get() { return MPI_CXX_FLOAT_COMPLEX; }
};

class Option {
    std::map<std::string, double> m;

  public:
    static Option *get() {
        static Option o;
        return &o;
    }
    double &operator[](const std::string &k) { return m[k]; }
    void remove(const std::string &k) { m.erase(k); }
    template <class T = double>
    T val(const std::string &k, const T &d = T()) const {
        auto i = m.find(k);
        return i == m.end() ? d : T(i->second);
    }
};

// dense solve with row exchanges, columns of B overwritten
template <class K>
bool dense_solve(std::vector<K> A, int n, K *B, int mu) {
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k + 1; i < n; i++)
            if (std::abs(A[i + size_t(k) * n]) > std::abs(A[p + size_t(k) * n])) p = i;
        if (A[p + size_t(k) * n] == K(0)) return false;
        if (p != k) {
            for (int j = 0; j < n; j++) std::swap(A[k + size_t(j) * n], A[p + size_t(j) * n]);
            for (int j = 0; j < mu; j++) std::swap(B[k + size_t(j) * n], B[p + size_t(j) * n]);
        }
        for (int i = k + 1; i < n; i++) {
            K l = A[i + size_t(k) * n] / A[k + size_t(k) * n];
            if (l == K(0)) continue;
            for (int j = k + 1; j < n; j++) A[i + size_t(j) * n] -= l * A[k + size_t(j) * n];
            for (int j = 0; j < mu; j++) B[i + size_t(j) * n] -= l * B[k + size_t(j) * n];
        }
    }
    for (int j = 0; j < mu; j++)
        for (int i = n - 1; i >= 0; i--) {
            K s = B[i + size_t(j) * n];
            for (int k = i + 1; k < n; k++) s -= A[i + size_t(k) * n] * B[k + size_t(j) * n];
            B[i + size_t(j) * n] = s / A[i + size_t(i) * n];
        }
    return true;
}

template <class K>
class LapackTR {};
template <class K>
class LapackTRSub { // dense local matrices; symmetric: lower triangle, self-adjoint
    std::vector<K> A;
    int n = 0;

  public:
    void load(int n0, bool sym, const K *a) {
        n = n0;
        A.assign(a, a + size_t(n) * n);
        if (sym)
            for (int j = 0; j < n; j++)
                for (int i = 0; i < j; i++) A[i + size_t(j) * n] = cj(A[j + size_t(i) * n]);
    }
    void solve(K *x, const unsigned short &mu = 1) const { dense_solve(A, n, x, mu); }
    void solve(const K *b, K *x, const unsigned short &mu = 1) const {
        for (size_t i = 0; i < size_t(n) * mu; i++) x[i] = b[i];
        dense_solve(A, n, x, mu);
    }
};

template <class K>
class Schwarz {
  public:
    typedef typename real_of<K>::type real;
    enum class Prcndtnr : char { NO,
                                 SY,
                                 GE,
                                 OS,
                                 OG };

  protected:
    int _dof       = 0;
    const real *_d = nullptr;
    std::vector<std::pair<unsigned short, std::vector<int>>> _map;
    std::vector<K *> _buff{nullptr};
    K **_ev        = nullptr;
    Prcndtnr _type = Prcndtnr::NO;
    Prcndtnr &type_ = _type;

  public:
    void initialize(real *d) { _d = d; }
    void initialize(const real *d) { _d = d; }
    int getDof() const { return _dof; }
    const real *getScaling() const { return _d; }
    Prcndtnr getType() const { return _type; }
    const std::vector<std::pair<unsigned short, std::vector<int>>> &getMap() const { return _map; }
    K **getBuffer() const { return const_cast<K **>(_buff.data()); }
    bool setBuffer() const {
        const_cast<K **>(_buff.data())[0] = new K[1];
        return true;
    }
    void clearBuffer(bool = true) const {
        delete[] _buff[0];
        const_cast<K **>(_buff.data())[0] = nullptr;
    }
    void sum_overlap(K *x, int mu) const { // adds what the neighbours hold for the same unknowns
        std::vector<std::vector<K>> s(_map.size()), r(_map.size());
        std::vector<MPI_Request> q(2 * _map.size());
        for (size_t k = 0; k < _map.size(); k++) {
            auto &ix = _map[k].second;
            r[k].resize(ix.size() * mu + 1);
            for (int c = 0; c < mu; c++)
                for (int i : ix) s[k].push_back(x[size_t(c) * _dof + i]);
            s[k].push_back(K(0));
            MPI_Irecv(r[k].data(), int(ix.size()) * mu, mpi_type<K>::get(), _map[k].first, 77, MPI_COMM_WORLD, &q[2 * k]);
            MPI_Isend(s[k].data(), int(ix.size()) * mu, mpi_type<K>::get(), _map[k].first, 77, MPI_COMM_WORLD, &q[2 * k + 1]);
        }
        MPI_Waitall(int(q.size()), q.data(), MPI_STATUSES_IGNORE);
        for (size_t k = 0; k < _map.size(); k++) {
            size_t z = 0;
            for (int c = 0; c < mu; c++)
                for (int i : _map[k].second) x[size_t(c) * _dof + i] += r[k][z++];
        }
    }
    // scaled by the partition of unity, then summed over the overlap
    template <bool allocate = false>
    void exchange(K *x, const int &mu = 1) const {
        for (int c = 0; c < mu; c++)
            for (int i = 0; i < _dof; i++) x[size_t(c) * _dof + i] *= K(_d[i]);
        sum_overlap(x, mu);
    }
    void setVectors(K **ev) { _ev = Option::get()->val("geneo_nu", 0.) > 0 ? ev : (delete[] ev, nullptr); }
    K **getVectors() const { return _ev; }
    virtual ~Schwarz() {
        if (_ev && *_ev) delete[] *_ev;
        delete[] _ev;
    }
};

template <template <class> class Solver, template <class> class Coarse, char S, class K>
class Dense : public Schwarz<K> {
    Solver<K> _s;
    const K *_p = nullptr;
    bool _sym   = false;
    std::vector<K> _E;
    std::vector<int> _nu;
    bool _two = false, _fact = false;
    template <class Sol>
    auto numfact(Sol &s, int) -> decltype(s.load(0, false, (const K *)nullptr), void()) { s.load(this->_dof, _sym, _p); }
    template <class Sol>
    void numfact(Sol &s, long) {
        MatrixCSR<K> *none = nullptr;
        s.numfact(none, _sym, const_cast<K *>(_p));
    }

  public:
    typedef Schwarz<K> super;
    static Dense *&last() { // the operator set up last (for the harness)
        static Dense *p = nullptr;
        return p;
    }
    void initialize(int n, bool sym, const K *p, const std::vector<int> &o, const std::vector<std::vector<int>> &r) {
        last()     = this;
        this->_dof = n;
        _sym       = sym;
        _p         = p;
        this->_map.clear();
        for (size_t k = 0; k < o.size(); k++) this->_map.push_back({(unsigned short)o[k], r[k]});
    }
    virtual int GMV(const K *const, K *const, const int & = 1) const = 0;
    Solver<K> &getSolver() { return _s; }
    const Solver<K> &getSolver() const { return _s; }
    void callNumfact() {
        numfact(_s, 0);
        _fact = true;
    }
    bool factorised() const { return _fact; }
    const std::vector<K> &getE() const { return _E; }
    // the coarse operator: known to process 0, row after row
    int buildTwo(const MPI_Comm &comm, const K *E) {
        int sz, nu = int(Option::get()->val("geneo_nu", 0.));
        MPI_Comm_size(comm, &sz);
        _nu.resize(sz);
        MPI_Allgather(&nu, 1, MPI_INT, _nu.data(), 1, MPI_INT, comm);
        int n = 0;
        for (int v : _nu) n += v;
        _E.assign(size_t(n) * n, K(0));
        int rk;
        MPI_Comm_rank(comm, &rk);
        if (!rk)
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++) _E[i + size_t(j) * n] = E[j + size_t(i) * n];
        MPI_Bcast(_E.data(), n * n, mpi_type<K>::get(), 0, comm);
        _two = true;
        return 0;
    }
    void deflation(const K *in, K *out, int mu) const {
        int sz, rk, n = 0, o = 0;
        MPI_Comm_size(MPI_COMM_WORLD, &sz);
        MPI_Comm_rank(MPI_COMM_WORLD, &rk);
        for (int k = 0; k < sz; k++) {
            if (k < rk) o += _nu[k];
            n += _nu[k];
        }
        std::vector<K> u(size_t(n) * mu + 1, K(0)), v(size_t(n) * mu + 1, K(0));
        for (int c = 0; c < mu; c++)
            for (int z = 0; z < _nu[rk]; z++)
                for (int i = 0; i < this->_dof; i++) u[o + z + size_t(c) * n] += cj(this->_ev[z][i]) * K(this->_d[i]) * in[i + size_t(c) * this->_dof];
        MPI_Allreduce(u.data(), v.data(), n * mu, mpi_type<K>::get(), MPI_SUM, MPI_COMM_WORLD);
        dense_solve(_E, n, v.data(), mu);
        for (int c = 0; c < mu; c++)
            for (int i = 0; i < this->_dof; i++) {
                K s(0);
                for (int z = 0; z < _nu[rk]; z++) s += this->_ev[z][i] * v[o + z + size_t(c) * n];
                out[i + size_t(c) * this->_dof] = s;
            }
        this->exchange(out, mu);
    }
    void one_level(const K *in, K *out, int mu) const {
        typedef typename Schwarz<K>::Prcndtnr P;
        if (this->_type == P::NO) {
            for (size_t i = 0; i < size_t(this->_dof) * mu; i++) out[i] = in[i];
            return;
        }
        _s.solve(in, out, (unsigned short)mu);
        if (this->_type == P::GE) this->exchange(out, mu);
        else this->sum_overlap(out, mu);
    }
    void apply(const K *in, K *out, int mu) const {
        double corr = Option::get()->val("schwarz_coarse_correction", -1.);
        size_t N    = size_t(this->_dof) * mu;
        if (!_two || corr < 0 || this->_type == Schwarz<K>::Prcndtnr::NO) return one_level(in, out, mu);
        std::vector<K> q(N + 1), w(N + 1), t(N + 1);
        deflation(in, q.data(), mu);
        if (corr == HPDDM_SCHWARZ_COARSE_CORRECTION_ADDITIVE) {
            one_level(in, out, mu);
            for (size_t i = 0; i < N; i++) out[i] += q[i];
            return;
        }
        GMV(q.data(), w.data(), mu); // M^-1 (I - A Q) + Q
        for (size_t i = 0; i < N; i++) w[i] = in[i] - w[i];
        one_level(w.data(), t.data(), mu);
        if (corr == HPDDM_SCHWARZ_COARSE_CORRECTION_BALANCED) { // (I - Q A) in front
            GMV(t.data(), w.data(), mu);
            deflation(w.data(), out, mu);
            for (size_t i = 0; i < N; i++) t[i] -= out[i];
        }
        for (size_t i = 0; i < N; i++) out[i] = t[i] + q[i];
    }
};
template <class T>
struct hpddm_method_id {
    static constexpr char value = 0;
};

struct Watch { // lets the harness look at what the iterative method is called with
    static std::function<void(const void *, int)> &on_solve() {
        static std::function<void(const void *, int)> f;
        return f;
    }
};
struct IterativeMethod { // full GMRES, right preconditioned, for each right-hand side; products and preconditioner on all of them at once
    template <class Op, class K>
    static int solve(const Op &A, const K *b, K *x, const int &mu, const MPI_Comm &comm) {
        typedef typename real_of<K>::type real;
        if (Watch::on_solve()) Watch::on_solve()(b, mu);
        int n = A.getDof(), in = 0, N = 0;
        for (int i = 0; i < n; i++) in += A.getScaling()[i] != 0;
        MPI_Allreduce(&in, &N, 1, MPI_INT, MPI_SUM, comm);
        size_t S = size_t(n) * mu;
        auto dot = [&](const K *u, const K *v) {
            K s(0), t(0);
            for (int i = 0; i < n; i++) s += cj(u[i]) * K(A.getScaling()[i]) * v[i];
            MPI_Allreduce(&s, &t, 1, mpi_type<K>::get(), MPI_SUM, comm);
            return t;
        };
        int its = 0;
        for (int sweep = 0; sweep < 3; sweep++) { // restarts remove rounding
            std::vector<K> r(S + 1), w(S + 1), z(S + 1);
            A.GMV(x, w.data(), mu);
            std::vector<std::vector<K>> V{std::vector<K>(S + 1)}, Z;
            std::vector<real> beta(mu, 0);
            bool work = false;
            for (int c = 0; c < mu; c++) {
                for (int i = 0; i < n; i++) r[i + size_t(c) * n] = b[i + size_t(c) * n] - w[i + size_t(c) * n];
                beta[c]  = std::sqrt(std::abs(dot(&r[size_t(c) * n], &r[size_t(c) * n])));
                real ref = std::sqrt(std::abs(dot(&b[size_t(c) * n], &b[size_t(c) * n])));
                if (!(beta[c] > real(1e-15) * ref)) beta[c] = 0;
                if (beta[c] > 0) {
                    work = true;
                    for (int i = 0; i < n; i++) V[0][i + size_t(c) * n] = r[i + size_t(c) * n] / beta[c];
                }
            }
            if (!work) break;
            std::vector<std::vector<std::vector<K>>> H(mu); // H[c][j]: column j
            std::vector<bool> done(mu, false);
            std::vector<int> dim(mu, 0);
            for (int c = 0; c < mu; c++) done[c] = beta[c] == 0;
            for (int j = 0; j < N; j++) {
                bool all = true;
                for (int c = 0; c < mu; c++) all = all && done[c];
                if (all) break;
                its++;
                Z.emplace_back(S + 1);
                A.apply(V[j].data(), Z[j].data(), mu);
                A.GMV(Z[j].data(), w.data(), mu);
                V.emplace_back(S + 1);
                for (int c = 0; c < mu; c++) {
                    if (done[c]) continue;
                    K *wc = &w[size_t(c) * n];
                    std::vector<K> h(j + 2, K(0));
                    real before = std::sqrt(std::abs(dot(wc, wc)));
                    for (int t = 0; t < 2; t++)
                        for (int i = 0; i <= j; i++) {
                            K s = dot(&V[i][size_t(c) * n], wc);
                            h[i] += s;
                            for (int k = 0; k < n; k++) wc[k] -= s * V[i][k + size_t(c) * n];
                        }
                    real nn = std::sqrt(std::abs(dot(wc, wc)));
                    h[j + 1] = nn;
                    H[c].push_back(h);
                    dim[c] = j + 1;
                    if (!(nn > real(1e-14) * before)) {
                        done[c] = true;
                        continue;
                    }
                    for (int k = 0; k < n; k++) V[j + 1][k + size_t(c) * n] = wc[k] / nn;
                }
            }
            for (int c = 0; c < mu; c++) { // least squares through the normal equations' stable cousin: Givens rotations
                int m = dim[c];
                if (!m) continue;
                std::vector<K> R(size_t(m + 1) * m, K(0)), g(m + 1, K(0));
                g[0] = beta[c];
                for (int j = 0; j < m; j++)
                    for (size_t i = 0; i < H[c][j].size(); i++) R[i + size_t(j) * (m + 1)] = H[c][j][i];
                for (int j = 0; j < m; j++) {
                    K a = R[j + size_t(j) * (m + 1)], d = R[j + 1 + size_t(j) * (m + 1)];
                    real l = std::sqrt(std::norm(a) + std::norm(d));
                    if (l == 0) continue;
                    for (int k = j; k < m; k++) {
                        K p = R[j + size_t(k) * (m + 1)], q = R[j + 1 + size_t(k) * (m + 1)];
                        R[j + size_t(k) * (m + 1)]     = (cj(a) * p + cj(d) * q) / l;
                        R[j + 1 + size_t(k) * (m + 1)] = (a * q - d * p) / l;
                    }
                    K p = g[j], q = g[j + 1];
                    g[j]     = (cj(a) * p + cj(d) * q) / l;
                    g[j + 1] = (a * q - d * p) / l;
                }
                std::vector<K> y(m, K(0));
                for (int i = m - 1; i >= 0; i--) {
                    K s = g[i];
                    for (int k = i + 1; k < m; k++) s -= R[i + size_t(k) * (m + 1)] * y[k];
                    K dd = R[i + size_t(i) * (m + 1)];
                    y[i] = std::abs(dd) > real(1e-14) * (std::abs(R[0]) + real(1e-300)) ? s / dd : K(0);
                }
                for (int j = 0; j < m; j++)
                    for (int i = 0; i < n; i++) x[i + size_t(c) * n] += y[j] * Z[j][i + size_t(c) * n];
            }
        }
        return its;
    }
};
} // namespace HPDDM
#endif
