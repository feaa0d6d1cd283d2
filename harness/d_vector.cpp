// Vector helpers, text helpers and vector files (V01).
#include "common.hpp"
#include <htool/basic_types/vector.hpp>
#include <htool/misc/misc.hpp>
#include <htool/misc/user.hpp>
#include <limits>
using namespace vf;

template <typename T>
std::string co(T x) { return "[" + std::to_string(q(re(x))) + "," + std::to_string(q(im(x))) + "]"; }
template <typename T>
std::string co(const std::vector<T> &v) {
    std::string s = "[";
    for (size_t k = 0; k < v.size(); k++) s += (k ? "," : "") + co(v[k]);
    return s + "]";
}
template <typename T>
std::string bits(const std::vector<T> &v) {
    std::string s = std::to_string(v.size()) + ":";
    char b[4];
    const unsigned char *p = reinterpret_cast<const unsigned char *>(v.data());
    for (size_t k = 0; k < v.size() * sizeof(T); k++) std::snprintf(b, 4, "%02x", p[k]), s += b;
    return s;
}
inline std::vector<double> halves(const std::vector<double> &v) { return v; }
inline std::vector<double> halves(const std::vector<cd> &v) {
    std::vector<double> w;
    for (auto &x : v) w.push_back(x.real()), w.push_back(x.imag());
    return w;
}
template <typename T>
T quot(const T &a, const T &b) { return a * b; }

template <typename T>
void vectors(Trace &tr, Rng &r, const std::string &file) {
    tr.begin_case();
    int n  = r.chance(20) ? 1 : r.range(2, 9);
    int hi = r.chance(40) ? 2 : 9; // few values: many ties
    auto a = rvec<T>(r, n, -hi, hi), b = rvec<T>(r, n, -hi, hi);
    const auto a0 = a;
    T s = mk<T>(0, 0);
    while (s == T(0)) s = rnd<T>(r, -4, 4);
    auto ev = [&](const char *f) { Ev e("vec"); e.s("f", f).raw("a", co(a0)).raw("b", co(b)).raw("s", co(s)); return e; };
    using htool::operator+;
    using htool::operator-;
    using htool::operator/;
    using htool::operator*=;
    using htool::operator/=;
    auto put = [&](const char *f, const std::string &res) { tr.put(ev(f).raw("r", res).raw("a2", co(a))); };
    put("sum", co(a + b));
    put("plus", co(htool::plus(a, b)));
    put("difference", co(a - b));
    put("minus", co(htool::minus(a, b)));
    put("scalar times vector", co(htool::mult(s, a)));
    put("vector times scalar", co(htool::mult(a, s)));
    put("inner product", co(htool::dprod(a, b)));
    double nn = htool::norm2(a);
    put("squared norm", co(T(nn * nn)));
    put("sum through the mean", co(htool::mean(a) * T(n)));
    put("largest", co(htool::max(a)));
    put("smallest", co(htool::min(a)));
    tr.put(ev("position of the largest").i("k", htool::argmax(a)).raw("a2", co(a)));
    { // exact quotients
        auto m = a;
        for (auto &x : m) x *= s;
        auto ex = [&](const char *f, const std::vector<T> &res) { Ev e("vec"); e.s("f", f).raw("a", co(m)).raw("s", co(s)).raw("r", co(res)); tr.put(e); };
        ex("quotient", m / s);
        auto d = m;
        d /= s;
        ex("division in place", d);
        auto u = a;
        u *= s;
        put("scaling in place", co(u));
    }
    { // conjugation, of a range and of one number
        auto c = a;
        int k  = r.range(0, n);
        htool::conj_if_complex(c.data(), k);
        std::vector<T> head(c.begin(), c.begin() + k), tail(c.begin() + k, c.end());
        for (auto x : tail) head.push_back(htool::conj_if_complex(x));
        tr.put(ev(is_c<T>::value ? "conjugate" : "no conjugate").raw("r", co(head)));
    }
    { // selections
        std::vector<int> idx;
        for (int p = 0; p < n; p++)
            if (r.chance(60)) idx.push_back(p);
        for (int p = int(idx.size()) - 1; p > 0; p--) std::swap(idx[size_t(p)], idx[size_t(r.range(0, p))]);
        auto c = a;
        htool::SubVec<T> S(std::move(c), idx);
        std::vector<T> got;
        for (int k = 0; k < S.get_size(); k++) got.push_back(S[k]);
        tr.put(ev("selection").seq("idx", idx).raw("r", co(got)));
        tr.put(ev("selection size").seq("idx", idx).i("k", S.get_size()));
        tr.put(ev("product with a selection").seq("idx", idx).raw("r", co((S, b))));
        for (int k = 0; k < S.get_size(); k++) S[k] = b[size_t(k)];
        tr.put(ev("write to a selection").seq("idx", idx).raw("r", co(c)));
    }
    // files: any value survives
    const double odd[] = {0., -0., 1e-310, 1e308, 1. / 3, -2.5, 123456789.123456789, -1e-5, 1e22, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
    auto same = [&](const char *what, const std::string &x, const std::string &y) { tr.put(Ev("vec").s("f", "same").s("what", what).s("x", x).s("y", y)); };
    {
        std::vector<T> v(size_t(r.range(0, 6))), w(size_t(r.range(0, 8)), T(1));
        double *d = reinterpret_cast<double *>(v.data());
        for (size_t k = 0; k < v.size() * sizeof(T) / sizeof(double); k++) d[k] = odd[r.range(0, 11)];
        int e = htool::vector_to_bytes(v, file) + htool::bytes_to_vector(w, file);
        same("vector read back from a binary file", bits(v) + "/0", bits(w) + "/" + std::to_string(e));
    }
    { // text: re+imi per line, signed zeros aside
        std::vector<T> v(size_t(r.range(0, 6)));
        double *d = reinterpret_cast<double *>(v.data());
        for (size_t k = 0; k < v.size() * sizeof(T) / sizeof(double); k++) d[k] = r.chance(50) ? odd[r.range(2, 8)] * (r.chance(50) ? -1 : 1) : double(r.range(-5, 5));
        int e = htool::matlab_save(v, file);
        std::ifstream in(file);
        std::string want, got;
        for (auto x : v) {
            char t[80];
            std::snprintf(t, 80, "%a %a\n", re(x) + 0., im(x) + 0.);
            want += t;
        }
        for (std::string line; std::getline(in, line);) {
            const char *p = line.c_str();
            char *end, t[80];
            double x = std::strtod(p, &end), y = 0;
            p = end;
            y = std::strtod(p, &end);
            if (*end != 'i' || end == p) y = std::nan("");
            std::snprintf(t, 80, "%a %a\n", x + 0., y + 0.);
            got += t;
        }
        same("vector read back from a text file", want + "0", got + std::to_string(e));
    }
    { // printed form
        std::ostringstream o, want;
        auto *real = std::cout.rdbuf();
        std::ostringstream stray;
        std::cout.rdbuf(stray.rdbuf());
        htool::operator<<(o, a);
        std::cout.rdbuf(real);
        want << "[";
        for (auto &x : a) want << x << ",";
        want << "\b]";
        same("printed vector", want.str() + "|", o.str() + "|" + stray.str());
    }
}
static std::string word(Rng &r, const std::string &alphabet, int lo, int hi) {
    std::string s;
    int n = r.range(lo, hi);
    for (int k = 0; k < n; k++) s += alphabet[size_t(r.range(0, int(alphabet.size()) - 1))];
    return s;
}
void texts(Trace &tr, Rng &r) {
    tr.begin_case();
    auto same = [&](const char *what, const std::string &x, const std::string &y) { tr.put(Ev("vec").s("f", "same").s("what", what).s("x", x).s("y", y)); };
    std::string delim = r.chance(50) ? "|" : r.chance(50) ? ", " : "ab";
    int n = r.range(1, 5);
    std::vector<std::string> p;
    std::string all;
    for (int k = 0; k < n; k++) p.push_back(word(r, "xyz ", 0, 3)), all += (k ? delim : "") + p.back();
    same("joined text", all, htool::join(delim, p));
    auto b = htool::split(all, delim);
    std::string x, y;
    for (auto &s : p) x += "<" + s + ">";
    for (auto &s : b) y += "<" + s + ">";
    same("split text", x, y);
    same("joined text", "", htool::join(delim, {}));
    int i = r.range(-100000, 100000);
    same("number to text and back", std::to_string(i), std::to_string(htool::StrToNbr<int>(htool::NbrToStr(i))));
    double d = r.range(-99999, 99999) / 16.;
    d        = std::floor(d * 4) / 4; // six digits are enough
    if (std::fabs(d) < 9999) same("number to text and back", std::to_string(d), std::to_string(htool::StrToNbr<double>(htool::NbrToStr(d))));
    same("text that is no number", "0", std::to_string(htool::StrToNbr<int>("w" + word(r, "xyz", 0, 3))));
}
int main(int argc, char **argv) {
    std::string out = arg(argc, argv, "--out", "/tmp/trace");
    long seed = argi(argc, argv, "--seed", 1), cases = argi(argc, argv, "--cases", 20), shards = argi(argc, argv, "--shards", 1);
    Trace tr(out, int(shards));
    std::string file = out + ".file";
    for (int c = 0; c < cases; c++) {
        Rng r(uint64_t(seed) * 1000003 + uint64_t(c) + 4242);
        if (c % 2) vectors<double>(tr, r, file); else vectors<cd>(tr, r, file);
        texts(tr, r);
    }
    std::remove(file.c_str());
    return 0;
}
