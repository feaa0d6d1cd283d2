// The logger (G01): replays histories of MCLogging on writers of the library and of a user.
#include "common.hpp"
#include <htool/misc/logger.hpp>
using namespace vf;
using namespace htool;
struct UserWriter : IObjectWriter { // keeps to the same rule, records in memory
    LogLevel level = LogLevel::ERROR;
    std::vector<std::string> got;
    int sets = 0;
    void set_log_level(LogLevel l) override { level = l, sets++; }
    void write(LogLevel l, const std::string &m) override {
        if (static_cast<unsigned>(l) <= static_cast<unsigned>(level)) got.push_back(logging_level_to_string(l) + m);
    }
};
static std::string jstr(const std::string &s) {
    Ev e("x");
    e.s("t", s);
    std::string v = e.str();
    size_t p      = v.find("\"t\":") + 4;
    return v.substr(p, v.size() - p - 1);
}
int main(int argc, char **argv) {
    std::string out = arg(argc, argv, "--out", "/tmp/trace");
    long seed = argi(argc, argv, "--seed", 1), shards = argi(argc, argv, "--shards", 1);
    Trace tr(out, int(shards));
    std::ostringstream cap;
    auto *real = std::cout.rdbuf();
    std::ifstream in(arg(argc, argv, "--hist", ""));
    Rng r(uint64_t(seed) * 1000003 + 17);
    const char *texts[] = {"", "one", "two words", "a\ttab", "quote \" and \\", "  spaces  ", "100 %", "{braces}", "a much longer message that says that something went wrong in some part of some computation, 0123456789"};
    auto &L = Logger::get_instance();
    for (std::string line; std::getline(in, line);) {
        if (line.empty()) continue;
        std::vector<std::pair<std::string, int>> ops;
        std::stringstream ss(line);
        int nw = 2;
        for (std::string w; std::getline(ss, w, ';');) {
            if (w.empty()) continue;
            ops.emplace_back(w.substr(0, w.find(':')), std::stoi(w.substr(w.find(':') + 1)));
            if (ops.back().first == "writer") nw = std::max(nw, ops.back().second);
        }
        std::vector<std::shared_ptr<UserWriter>> user(static_cast<size_t>(nw) + 1);
        std::vector<std::shared_ptr<IObjectWriter>> lib(static_cast<size_t>(nw) + 1);
        std::vector<int> lvl;
        int shared = r.range(1, nw); // the library's writers share the standard output: one of them at most
        for (int k = 1; k <= nw; k++) {
            if (k == shared) lib[k] = std::make_shared<StandartOutputWriter>(); else lib[k] = user[k] = std::make_shared<UserWriter>();
            lvl.push_back(10);
        }
        tr.begin_case();
        tr.put(Ev("case").seq("lvl", lvl));
        L.set_current_writer(lib[1]);
        std::cout.rdbuf(cap.rdbuf());
        cap.str("");
        size_t pos = 0;
        for (auto &o : ops) {
            std::string text = texts[r.range(0, 8)];
            Ev e("act");
            e.s("f", o.first);
            if (o.first == "writer")
                L.set_current_writer(lib[o.second]), e.i("w", o.second);
            else if (o.first == "level") {
                if (r.chance(50)) L.set_current_log_level(static_cast<LogLevel>(o.second)); else L.set_current_log_level(static_cast<unsigned>(o.second));
                e.i("l", o.second);
            } else
                Logger::get_instance().log(static_cast<LogLevel>(o.second), text), e.i("l", o.second).i("id", 0);
            std::string g = "[";
            for (int k = 1; k <= nw; k++) {
                std::vector<std::string> now;
                if (user[k])
                    now.swap(user[k]->got);
                else {
                    std::string s = cap.str().substr(pos);
                    pos += s.size();
                    while (!s.empty()) {
                        size_t nl = s.find('\n');
                        now.push_back(nl == std::string::npos ? s + "(no end of line)" : s.substr(0, nl));
                        s = nl == std::string::npos ? "" : s.substr(nl + 1);
                    }
                }
                std::string a = "[";
                for (auto &t : now) a += std::string(a.size() > 1 ? "," : "") + jstr(t);
                g += std::string(k > 1 ? "," : "") + a + "]";
            }
            e.raw("got", g + "]").s("text", text);
            tr.put(e);
        }
        std::cout.rdbuf(real);
        L.set_current_writer(std::make_shared<StandartOutputWriter>());
    }
    // levels out of the box
    return 0;
}
