#include "vp.hpp"
#include "glob.hpp"
using namespace quickbook;
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> w = vp::words(line);
        std::string pat = vp::unhex(w[0]);
        std::string kind;
        try { kind = check_glob(pat) ? "glob" : "plain"; } catch (glob_error&) { kind = "error"; }
        std::ostringstream names, res;
        long find = -2;
        std::string un;
        for (std::size_t i = 1; i < w.size(); ++i) {
            std::string n = vp::unhex(w[i]);
            names << (i > 1 ? "," : "") << vp::bytes(n);
            if (kind != "error") {
                int r;
                try { r = glob(pat, n); } catch (glob_error&) { r = 2; }
                res << (i > 1 ? "," : "") << r;
            }
        }
        if (kind != "error") {
            std::size_t f = find_glob_char(pat);
            find = f == string_view::npos ? -1 : (long)f;
            un = glob_unescape(pat);
        }
        std::cout << "{\"pat\":" << vp::bytes(pat) << ",\"kind\":\"" << kind << "\",\"find\":" << find
                  << ",\"unesc\":" << vp::bytes(un) << ",\"names\":[" << names.str() << "],\"res\":[" << res.str() << "]}"
                  << std::endl;
    }
}
