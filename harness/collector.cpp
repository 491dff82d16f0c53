// Replays operations on two collectors; only "read" and "swap" look.
#include "vp.hpp"
#include "collector.hpp"
#include <memory>
using namespace quickbook;
static std::string fold(std::string const& s) {
    std::string r;
    for (std::size_t i = 0; i < s.size();) {
        if (s[i] == '#' && s.substr(i, 700) == std::string(700, '#')) { r += 'L'; i += 700; }
        else r += s[i++];
    }
    return r;
}
static std::string letter(int n) { return std::string(1, (char)('a' + n % 20)); }
static void put(std::ostream& o, std::string const& k, int n) {
    if (k == "num") o << n % 10;
    else if (k == "char") o << letter(n)[0];
    else if (k == "long") o << std::string(700, '#');
    else if (k == "empty") o << "";
    else o << letter(n).c_str();
}
static void run(std::vector<std::string> const& w, std::ostream& out) {
    string_stream ext;
    string_stream copy(ext), assigned;
    assigned = copy;
    std::unique_ptr<collector> col[3];
    col[1].reset(new collector());
    col[2].reset(new collector(ext));
    std::string reg[3];
    int n = 0, depth[3] = {0, 0, 0};
    out << "{\"ops\":[";
    for (std::size_t p = 0; p < w.size();) {
        if (p) out << ',';
        std::string op = w[p++], r, k;
        int c = 0, i = 0;
        out << "{\"o\":{\"op\":\"" << op << "\"";
        if (op != "ext") { c = std::atoi(w[p++].c_str()); out << ",\"c\":" << c; }
        if (op == "write" || op == "ext") { k = w[p++]; out << ",\"k\":\"" << k << "\""; }
        if (op == "swap" || op == "append") { i = std::atoi(w[p++].c_str()); out << ",\"i\":" << i; }
        collector* x = c ? col[c].get() : 0;
        if (op == "write") {
            if (k == "string") *x << letter(n);
            else if (k == "app") x->append(letter(n));
            else if (k == "num") *x << n % 10;
            else if (k == "char") *x << letter(n)[0];
            else if (k == "stream") *x << letter(n).c_str();
            else put(x->get(), k, n);
            ++n;
        }
        else if (op == "ext") {
            if (k == "app") copy.append(letter(n)); else assigned.get() << letter(n).c_str();
            ++n;
        }
        else if (op == "push") { x->push(); ++depth[c]; }
        else if (op == "pop") { x->pop(); --depth[c]; }
        else if (op == "clear") x->clear();
        else if (op == "swap") { x->swap(reg[i]); r = fold(reg[i]); }
        else if (op == "append") x->append(reg[i]);
        else if (op == "read") r = fold(x->str());
        out << "},\"r\":" << vp::quote(r) << "}";
    }
    for (int c = 1; c < 3; ++c) while (depth[c]-- > 0) col[c]->pop();
    std::string one = fold(col[1]->str());
    col[1].reset();
    col[2].reset();
    out << "],\"bottom\":[" << vp::quote(one) << ',' << vp::quote(fold(copy.str())) << "],\"regs\":["
        << vp::quote(fold(reg[1])) << ',' << vp::quote(fold(reg[2])) << "]}";
}
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::ostringstream o;
        run(vp::words(l), o);
        std::cout << o.str() << std::endl;
    }
}
