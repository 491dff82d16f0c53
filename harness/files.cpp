// Assembles derived files and records the position of every offset in them.
#include "vp.hpp"
#include "files.hpp"
#include <vector>
using namespace quickbook;
static void run(std::vector<std::string> const& w, std::ostream& out) {
    std::string text = vp::unhex(w[0]);
    std::vector<file_ptr> files;
    files.push_back(new file("(text)", text, 107u));
    mapped_file_builder b[3];
    int base[3] = {-1, -1, -1};
    out << "{\"t\":" << vp::bytes(text) << ",\"ops\":[";
    for (std::size_t p = 1; p < w.size();) {
        if (p > 1) out << ',';
        std::string op = w[p++];
        int n = std::atoi(w[p++].c_str());
        out << "{\"o\":{\"op\":\"" << op << "\",\"b\":" << n;
        if (op == "start") {
            int f = std::atoi(w[p++].c_str());
            out << ",\"f\":" << f << "}";
            base[n] = f - 1;
            b[n].start(files[f - 1]);
        } else if (op == "gen") {
            int i = std::atoi(w[p++].c_str());
            std::string t = vp::unhex(w[p++]);
            out << ",\"i\":" << i << ",\"t\":" << vp::bytes(t) << "}";
            b[n].add_at_pos(t, files[base[n]]->source().begin() + i);
        } else if (op == "release") {
            file_ptr f = b[n].release();
            base[n] = -1;
            files.push_back(f);
            out << "},\"t\":" << vp::bytes(f->source().begin(), f->source().end()) << ",\"pos\":[";
            for (std::size_t i = 0; i <= f->source().size(); ++i) {
                file_position x = f->position_of(f->source().begin() + i);
                out << (i ? "," : "") << '[' << x.line << ',' << x.column << ']';
            }
            out << ']';
        } else {
            int i = std::atoi(w[p++].c_str()), j = std::atoi(w[p++].c_str());
            out << ",\"i\":" << i << ",\"j\":" << j << "}";
            if (op == "part") {
                std::size_t before = b[n].get_pos();
                b[n].add(b[3 - n], i, j);
                if (b[n].get_pos() != before + (j - i)) std::abort();
            } else {
                quickbook::string_view x(&*files[base[n]]->source().begin() + i, j - i);
                if (op == "add") b[n].add(x); else b[n].unindent_and_add(x);
            }
        }
        out << '}';
    }
    out << "]}";
}
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::ostringstream o;
        run(vp::words(l), o);
        std::cout << o.str() << std::endl;
    }
}
