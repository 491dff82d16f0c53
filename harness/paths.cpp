// Relative paths, URLs for paths, escaping of URLs and command line
// parameters.  A line is: operation, two texts in hex, a flag.
#include "vp.hpp"
#include "path.hpp"
#include "utils.hpp"
#include <unistd.h>
#include <stdlib.h>
#include <sys/stat.h>
using namespace quickbook;
int main() {
    char dir[] = "/tmp/vp-paths-XXXXXX";
    if (!mkdtemp(dir) || chdir(dir) || mkdir("a", 0755) || mkdir("a/cw", 0755) || chdir("a/cw")) return 3;
    std::string cwd = std::string(dir) + "/a/cw";
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> w = vp::words(line);
        std::string a = vp::unhex(w[1]), b = vp::unhex(w[2]), r, r2;
        bool f = w[3] == "1", out = f;
        if (w[0] == "diff") r = path_difference(fs::path(a), fs::path(b), f).generic_string();
        else if (w[0] == "url") r = f ? dir_path_to_url(fs::path(a)) : file_path_to_url(fs::path(a));
        else if (w[0] == "esc") { r = detail::escape_uri(a); r2 = detail::partially_escape_uri(a); }
        else {
            detail::path_or_url p(a);
            detail::path_or_url q = p / b;
            out = p.is_url();
            r = p.is_url() ? p.get_url() : p.get_path().generic_string();
            r2 = q.is_url() ? q.get_url() : q.get_path().generic_string();
            if (p.is_url() != q.is_url() || p.is_path() == p.is_url() || !p) return 4;
        }
        std::cout << "{\"op\":\"" << w[0] << "\",\"cwd\":" << vp::bytes(cwd) << ",\"a\":" << vp::bytes(a) << ",\"b\":" << vp::bytes(b)
                  << ",\"f\":" << (out ? "true" : "false") << ",\"r\":" << vp::bytes(r) << ",\"r2\":" << vp::bytes(r2) << "}" << std::endl;
    }
    chdir("/");
    rmdir((std::string(dir) + "/a/cw").c_str());
    rmdir((std::string(dir) + "/a").c_str());
    rmdir(dir);
}
