// Converts BoostBook documents to HTML.  A line is: folder, s or c (single
// page or several), css path, graphics path, boost path (hex), document
// (hex).  Each document is converted by a process of its own, as footnotes
// are numbered by the process.
#include "vp.hpp"
#include "bb2html.hpp"
#include "native_text.hpp"
#include "stream.hpp"
#include <cstdlib>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using namespace quickbook;
using namespace quickbook::detail;
int main() {
    initialise_output();
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> w = vp::words(line);
        std::string dir = vp::unhex(w[0]), css = vp::unhex(w[2]), gr = vp::unhex(w[3]), boost_ = vp::unhex(w[4]), src = vp::unhex(w[5]);
        std::cout.flush();
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open("/dev/null", O_RDWR);
            dup2(fd, 0); dup2(fd, 1); dup2(fd, 2);
            alarm(60);
            html_options o;
            o.chunked_output = w[1] == "c";
            o.home_path = boost::filesystem::path(dir) / "out" / "index.html";
            if (!css.empty()) o.css_path = path_or_url(css);
            if (!gr.empty()) o.graphics_path = path_or_url(gr);
            if (!boost_.empty()) o.boost_root_path = path_or_url(boost_);
            o.pretty_print = false;
            int r = boostbook_to_html(src, o);
            _exit(r < 100 ? r : 100);
        }
        int st = 0;
        if (pid < 0 || waitpid(pid, &st, 0) < 0) return 4;
        std::cout << "{\"status\":" << (WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)) << "}" << std::endl;
    }
}
