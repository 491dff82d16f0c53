// Reads code snippets out of source files with the real reader.  A line is:
// cpp or py, the language version, the text (hex).
#include "vp.hpp"
#include "actions.hpp"
#include "block_tags.hpp"
#include "files.hpp"
#include "state.hpp"
#include "template_stack.hpp"
#include <fstream>
#include <cstdlib>
#include <unistd.h>
using namespace quickbook;
int main() {
    char t[] = "/tmp/vp-snip-XXXXXX";
    std::string dir = mkdtemp(t), l;
    int n = 0;
    // messages are not looked at
    std::ofstream null("/dev/null");
    std::cerr.rdbuf(null.rdbuf());
    while (std::getline(std::cin, l)) {
        std::vector<std::string> w = vp::words(l);
        std::string ext = "." + w[0], name = dir + "/" + std::to_string(n++) + ext;
        { std::ofstream f(name.c_str(), std::ios::binary); f << vp::unhex(w[2]); }
        qbk_version_n = std::atoi(w[1].c_str());
        std::vector<template_symbol> s;
        std::ostringstream o;
        try {
            int errors = load_snippets(name, s, ext, block_tags::import);
            o << "{\"bad\":" << errors << ",\"snips\":[";
            for (std::size_t i = 0; i < s.size(); ++i) {
                string_view b = s[i].content.get_quickbook();
                o << (i ? "," : "") << "{\"id\":" << vp::quote(s[i].identifier) << ",\"body\":" << vp::quote(std::string(b.begin(), b.end())) << "}";
            }
            o << "]}";
        } catch (load_error&) { o.str("{\"bad\":-1,\"snips\":[]}"); }
        ::unlink(name.c_str());
        std::cout << o.str() << std::endl;
    }
    ::rmdir(dir.c_str());
}
