// Writes files in a scratch directory and loads them with the real loader.
// Each line uses names of its own, as the loader remembers paths.
#include "vp.hpp"
#include "files.hpp"
#include <fstream>
#include <cstdlib>
#include <unistd.h>
using namespace quickbook;
static std::string dir;
static int lines;
static void run(std::vector<std::string> const& w, std::ostream& out) {
    out << "{\"ops\":[";
    std::vector<file_ptr> keep;
    std::string used[4];
    for (std::size_t p = 0; p < w.size();) {
        if (p) out << ',';
        std::string op = w[p++];
        int n = std::atoi(w[p++].c_str());
        std::string name = dir + "/" + std::to_string(lines) + "-" + std::to_string(n) + ".qbk";
        used[n] = name;
        out << "{\"o\":{\"op\":\"" << op << "\",\"n\":" << n;
        if (op == "put") {
            std::string t = vp::unhex(w[p++]);
            out << ",\"t\":" << vp::bytes(t) << "}}";
            std::ofstream f(name.c_str(), std::ios::binary);
            f << t;
        } else if (op == "del") {
            out << "}}";
            ::unlink(name.c_str());
        } else {
            int v = std::atoi(w[p++].c_str());
            out << ",\"v\":" << v << "}";
            try {
                file_ptr f = load(name, v);
                keep.push_back(f);
                out << ",\"ok\":1,\"v\":" << (v ? (int)f->version() : 0) << ",\"t\":" << vp::bytes(f->source().begin(), f->source().end()) << ",\"pos\":[";
                for (std::size_t i = 0; i <= f->source().size(); ++i) {
                    file_position x = f->position_of(f->source().begin() + i);
                    out << (i ? "," : "") << '[' << x.line << ',' << x.column << ']';
                }
                out << "]}";
            } catch (load_error&) { out << ",\"ok\":0}"; }
        }
    }
    ++lines;
    for (int i = 1; i < 4; ++i) if (!used[i].empty()) ::unlink(used[i].c_str());
    out << "]}";
}
int main() {
    char t[] = "/tmp/vp-load-XXXXXX";
    dir = mkdtemp(t);
    std::string l;
    while (std::getline(std::cin, l)) {
        std::ostringstream o;
        run(vp::words(l), o);
        std::cout << o.str() << std::endl;
    }
    ::rmdir(dir.c_str());
}
