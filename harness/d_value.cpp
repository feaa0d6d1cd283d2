// Dense matrices as values (M03): replays histories of MCValues and checks reading, arithmetic and files.
#include "common.hpp"
#include <htool/matrix/matrix.hpp>
#include <limits>
#include <map>
#include <new>
#include <set>
#include <unistd.h>

// every array allocation is registered, so that the specification can count them
static std::set<void *> &live() {
    static std::set<void *> s;
    return s;
}
static long wild = 0;
static bool watch = false;
__attribute__((noinline)) void *operator new[](std::size_t n) {
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (watch) {
        std::memset(p, 0xA5, n);
        live().insert(p);
    }
    return p;
}
__attribute__((noinline)) static void give_back(void *p) {
    if (!p) return;
    if (live().erase(p))
        std::free(p);
    else if (watch)
        wild++; // not freed: it is not ours, or it was given back before
    else
        std::free(p);
}
void operator delete[](void *p) noexcept { give_back(p); }
void operator delete[](void *p, std::size_t) noexcept { give_back(p); }

using namespace vf;
using namespace htool;

template <typename T>
std::string coeffs(const T *p, int n) {
    std::string s = "[";
    for (int k = 0; k < n; k++) s += std::string(k ? "," : "") + "[" + std::to_string(q(re(p[k]))) + "," + std::to_string(q(im(p[k]))) + "]";
    return s + "]";
}
template <typename T>
std::string jm(const Matrix<T> &A) {
    Ev e("x");
    e.mat("M", A.data(), A.nb_rows(), A.nb_cols());
    std::string s = e.str();
    size_t p      = s.find("\"M\":") + 4;
    return s.substr(p, s.size() - p - 1);
}
template <typename T>
struct Machine {
    Trace &tr;
    Rng &r;
    std::string file;
    static const int N = 4;
    std::unique_ptr<Matrix<T>> slot[N];
    std::map<int, T *> foreign;
    std::map<int, int> len;
    long base = 0;
    Machine(Trace &t, Rng &rr, const std::string &f) : tr(t), r(rr), file(f) {}
    T val() { return rnd<T>(r, -9, 9); }
    void observe(Ev &e) {
        std::string s = "[";
        for (int k = 1; k < N; k++)
            if (slot[k]) {
                auto &M = *slot[k];
                bool null = M.data() == nullptr;
                s += std::string(s.size() > 1 ? "," : "") + "{\"o\":" + std::to_string(k) + ",\"m\":" + std::to_string(M.nb_rows()) + ",\"n\":" + std::to_string(M.nb_cols()) + ",\"null\":" + (null ? "true" : "false") + ",\"v\":" + coeffs(M.data(), null ? 0 : M.nb_rows() * M.nb_cols()) + "}";
            }
        e.raw("obs", s + "]");
        s = "[";
        for (auto &f : foreign) s += std::string(s.size() > 1 ? "," : "") + "{\"b\":" + std::to_string(f.first) + ",\"v\":" + coeffs(f.second, len[f.first]) + "}";
        e.raw("foreign", s + "]").i("allocs", long(live().size()) - base).i("wild", wild);
    }
    void replay(const std::string &line, int nforeign) {
        watch = true;
        base  = long(live().size());
        wild  = 0;
        tr.begin_case();
        Ev c("case");
        std::string h = "[";
        for (int b = 1; b <= nforeign; b++) {
            foreign[b] = new T[4];
            len[b]     = 4;
            for (int k = 0; k < 4; k++) foreign[b][k] = val();
            h += std::string(b > 1 ? "," : "") + coeffs(foreign[b], 4);
        }
        tr.put(c.i("slots", N - 1).raw("heap", h + "]"));
        std::stringstream ss(line);
        std::map<T *, int> size_of; // lengths of buffers handed to or obtained from matrices
        for (std::string w; std::getline(ss, w, ';');) {
            if (w.empty()) continue;
            std::vector<std::string> f;
            std::stringstream s2(w);
            for (std::string x; std::getline(s2, x, ':');) f.push_back(x);
            auto num = [&](int k) { return std::stoi(f[size_t(k)]); };
            std::string op = f[0];
            int x = num(1), y = num(2), b = num(3), m = num(4), n = num(5), i = num(6), j = num(7);
            Ev e("v");
            e.s("f", op).i("x", x).i("y", y).i("b", b).i("m", m).i("n", n).i("i", i).i("j", j);
            T v = val();
            auto vec = [&](int k) { std::vector<T> a; for (int p = 0; p < k; p++) a.push_back(val()); return a; };
            std::vector<T> a;
            auto &X = slot[x];
            if (op == "default")
                X.reset(new Matrix<T>());
            else if (op == "make")
                X.reset(new Matrix<T>(m, n, v));
            else if (op == "cc")
                X.reset(new Matrix<T>(*slot[y]));
            else if (op == "mc")
                X.reset(new Matrix<T>(std::move(*slot[y])));
            else if (op == "assign")
                *X = *slot[y];
            else if (op == "massign")
                *X = std::move(*slot[y]);
            else if (op == "view")
                X->assign(m, n, foreign.at(b), false);
            else if (op == "viewof")
                X->assign(slot[y]->nb_rows(), slot[y]->nb_cols(), slot[y]->data(), false);
            else if (op == "adopt") {
                T *p = foreign.at(b);
                foreign.erase(b);
                size_of[p] = len[b];
                X->assign(m, n, p, true);
            } else if (op == "resize")
            {
                if (v == T(0)) X->resize(m, n); else X->resize(m, n, v);
            }
            else if (op == "fill")
                *X = v;
            else if (op == "set")
                (*X)(i, j) = v;
            else if (op == "setrow")
                a = vec(X->nb_cols()), X->set_row(i, a);
            else if (op == "setcol")
                a = vec(X->nb_rows()), X->set_col(i, a);
            else if (op == "poke")
                foreign.at(b)[i] = v;
            else if (op == "release") {
                int k = X->nb_rows() * X->nb_cols();
                T *p  = X->release();
                if (i == 1) foreign[b] = p, len[b] = size_of.count(p) ? size_of[p] : k; // it was the owner: now the caller is
            } else if (op == "save")
                X->matrix_to_bytes(file);
            else if (op == "load")
                X->bytes_to_matrix(file);
            else if (op == "drop")
                X.reset();
            else
                std::abort();
            e.raw("v", "[" + std::to_string(q(re(v))) + "," + std::to_string(q(im(v))) + "]").raw("w", coeffs(a.data(), int(a.size())));
            observe(e);
            tr.put(e);
        }
        for (auto &s : slot) s.reset();
        for (auto &f : foreign) delete[] f.second;
        foreign.clear();
        watch = false;
    }
    void arith() {
        tr.begin_case();
        int m = r.range(1, 6), n = r.range(1, 6), k = r.range(1, 6);
        auto rm = [&](int a, int b) { Matrix<T> M(a, b); for (int j = 0; j < b; j++) for (int i = 0; i < a; i++) M(i, j) = val(); return M; };
        auto A = rm(m, n), B = rm(m, n), C = rm(n, k);
        T al = val();
        auto ev = [&](const char *f, const Matrix<T> &X) { Ev e("arith"); e.s("f", f).raw("A", jm(X)); return e; };
        auto as = [&](const std::vector<T> &v) { Matrix<T> M(int(v.size()), 1); std::copy(v.begin(), v.end(), M.data()); return M; };
        tr.put(ev("sum", A).raw("B", jm(B)).raw("R", jm(A + B)));
        tr.put(ev("difference", A).raw("B", jm(B)).raw("R", jm(A - B)));
        tr.put(ev("times scalar", A).scal("a", al).raw("R", jm(r.chance(50) ? A * al : al * A)));
        tr.put(ev("product", A).raw("B", jm(C)).raw("R", jm(A * C)));
        auto x = rvec<T>(r, n, -9, 9);
        tr.put(ev("times vector", A).raw("B", jm(as(x))).raw("R", jm(as(A * x))));
        tr.put(ev("squared Frobenius norm", A).i("R", q(normFrob(A) * normFrob(A))));
        auto p = argmax(A);
        tr.put(ev("position of the largest", A).i("i", p.first).i("j", p.second));
        int i = r.range(0, m - 1), j = r.range(0, n - 1);
        tr.put(ev("row", A).i("i", i).raw("R", jm(as(A.get_row(i)))));
        tr.put(ev("column", A).i("i", j).raw("R", jm(as(A.get_col(j)))));
        int st = r.range(0, m * n - 1), sd = r.range(1, 3), ln = r.range(0, (m * n - 1 - st) / sd + 1);
        tr.put(ev("slice", A).i("i", st).i("j", ln).i("k", sd).raw("R", jm(as(A.get_stridedslice(st, ln, sd)))));
        // text and binary files
        std::string delim = r.chance(50) ? "," : r.chance(50) ? ";" : " ";
        if (delim == "," && is_c<T>::value) delim = ";";
        A.csv_save(file, delim);
        Matrix<T> R(m, n, T(BAD));
        std::ifstream in(file);
        std::string line;
        int rows = 0;
        bool fine = true;
        for (; std::getline(in, line); rows++) {
            int cols = 0;
            size_t pos = 0;
            while (pos <= line.size()) {
                size_t nx = line.find(delim, pos);
                if (nx == std::string::npos) nx = line.size();
                std::istringstream is(line.substr(pos, nx - pos));
                T v;
                if (!(is >> v) || rows >= m || cols >= n) { fine = false; break; }
                R(rows, cols++) = v;
                pos = nx + delim.size();
            }
            fine = fine && cols == n;
        }
        if (!fine || rows != m) R = Matrix<T>(0, 0);
        tr.put(ev("text", A).raw("R", jm(R)));
        // any double survives the binary file bit by bit, sizes zero included
        int bm = r.range(0, 4), bn = r.range(0, 4);
        Matrix<T> X(bm, bn), Y = rm(r.range(0, 3), r.range(0, 3));
        const double odd[] = {0., -0., 1e-310, 1e308, 1. / 3, -2.5, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
        double *d = reinterpret_cast<double *>(X.data());
        int nd    = bm * bn * int(sizeof(T) / sizeof(double));
        for (int z = 0; z < nd; z++) d[z] = odd[r.range(0, 7)];
        auto bits = [](const Matrix<T> &M) {
            std::string s = std::to_string(M.nb_rows()) + "x" + std::to_string(M.nb_cols());
            const unsigned char *b = reinterpret_cast<const unsigned char *>(M.data());
            char buf[4];
            for (size_t z = 0; z < sizeof(T) * size_t(M.nb_rows()) * size_t(M.nb_cols()); z++) std::snprintf(buf, 4, "%02x", b[z]), s += buf;
            return s;
        };
        bool ok = X.matrix_to_bytes(file) == 0 && Y.bytes_to_matrix(file) == 0; // both report success
        tr.put(Ev("arith").s("f", "bytes").s("A", bits(X)).s("R", ok ? bits(Y) : std::string("reported as failed")));
    }
};
int main(int argc, char **argv) {
    std::string out = arg(argc, argv, "--out", "/tmp/trace");
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 20), shards = argi(argc, argv, "--shards", 1);
    Trace tr(out, int(shards));
    std::string file = out + ".file";
    Rng r(uint64_t(seed) * 1000003 + 5151);
    std::ifstream in(arg(argc, argv, "--hist", ""));
    for (std::string l; std::getline(in, l);) {
        if (l.empty()) continue;
        int nf = l[0] - '0';
        l      = l.substr(1);
        if (r.chance(50)) Machine<double>(tr, r, file).replay(l, nf); else Machine<cd>(tr, r, file).replay(l, nf);
    }
    for (int c = 0; c < cases; c++) {
        Rng rc(uint64_t(seed) * 1000003 + uint64_t(c) + 91);
        if (c % 2) Machine<double>(tr, rc, file).arith(); else Machine<cd>(tr, rc, file).arith();
    }
    std::remove(file.c_str());
    return 0;
}
