// Replays operations on a dependency_tracker in a scratch directory.
#include "vp.hpp"
#include "dependency_tracker.hpp"
#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>
#include <memory>
namespace fs = boost::filesystem;
static fs::path top;
static std::string slurp(fs::path const& p) {
    fs::ifstream f(p, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
static void run(std::vector<std::string> const& w, std::ostream& out) {
    fs::path box = top / "b" / "w";
    fs::remove_all(top / "b");
    fs::create_directories(box);
    fs::current_path(box);
    quickbook::dependency_tracker t;
    out << "{\"ops\":[";
    for (std::size_t p = 0; p < w.size();) {
        if (p) out << ',';
        std::string op = w[p++], r;
        out << "{\"o\":{\"op\":\"" << op << "\"";
        if (op == "write") {
            int f = std::atoi(w[p++].c_str());
            out << ",\"f\":" << f;
            if (f % 2) {
                std::ostringstream o;
                t.write_dependencies(o, quickbook::dependency_tracker::flags(f));
                r = o.str();
            } else {
                t.write_dependencies(top / "list", quickbook::dependency_tracker::flags(f));
                r = slurp(top / "list");
            }
        } else {
            std::string n = vp::unhex(w[p++]);
            out << ",\"p\":" << vp::bytes(n);
            fs::path f(n);
            if (op == "create") {
                if (!f.parent_path().empty()) fs::create_directories(f.parent_path());
                fs::ofstream(f) << "x";
            }
            else if (op == "delete") fs::remove(f);
            else if (op == "dep") r = std::string(1, t.add_dependency(f) ? '\1' : '\0');
            else if (op == "glob") t.add_glob(f);
            else if (op == "match") t.add_glob_match(f);
        }
        out << "},\"r\":" << vp::bytes(r) << "}";
    }
    out << "]}";
}
int main() {
    top = fs::temp_directory_path() / fs::unique_path("vp-deps-%%%%%%%%");
    fs::create_directories(top);
    std::string l;
    while (std::getline(std::cin, l)) {
        std::ostringstream o;
        run(vp::words(l), o);
        std::cout << o.str() << std::endl;
    }
    fs::current_path("/");
    fs::remove_all(top);
}
