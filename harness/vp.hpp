// Helpers of the conformance drivers: hex in, JSON out.
#ifndef VP_HPP
#define VP_HPP
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
namespace vp {
inline std::string unhex(std::string const& h) {
    std::string r;
    if (h == "-") return r;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) {
        r += (char)std::stoi(h.substr(i, 2), 0, 16);
    }
    return r;
}
template <class It> std::string bytes(It b, It e) {
    std::ostringstream o;
    o << '[';
    bool first = true;
    for (; b != e; ++b) {
        if (!first) o << ',';
        first = false;
        o << (int)(unsigned char)*b;
    }
    o << ']';
    return o.str();
}
inline std::string bytes(std::string const& s) { return bytes(s.begin(), s.end()); }
inline std::string quote(std::string const& s) {
    std::ostringstream o;
    o << '"';
    for (std::size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') o << '\\' << c;
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o << b; }
        else o << c;
    }
    o << '"';
    return o.str();
}
inline std::vector<std::string> words(std::string const& l) {
    std::istringstream in(l);
    std::vector<std::string> r;
    std::string w;
    while (in >> w) r.push_back(w);
    return r;
}
}
#endif
