// Pretty prints a document: hex indent linewidth html
#include "vp.hpp"
#include "post_process.hpp"
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::vector<std::string> w = vp::words(l);
        std::ostringstream o;
        try {
            std::string r = quickbook::post_process(vp::unhex(w[0]), std::atoi(w[1].c_str()), std::atoi(w[2].c_str()), w[3] == "1");
            o << "{\"ok\":1,\"t\":" << vp::bytes(r) << "}";
        } catch (quickbook::post_process_failure&) { o << "{\"ok\":0}"; }
        std::cout << o.str() << std::endl;
    }
}
