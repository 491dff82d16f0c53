// Reads each text with xml_parse from a buffer of exactly its size, and
// records the tree, or the error's position; also decodes and encodes it.
#include "vp.hpp"
#include "xml_parse.hpp"
#include "utils.hpp"
#include <cstring>
#include <memory>
using namespace quickbook;
using namespace quickbook::detail;
static std::string text;
static bool any;
static void sep(std::ostream& o) { if (any) o << ','; any = true; }
static void flush(std::ostream& o) {
    if (text.empty()) return;
    sep(o);
    o << "{\"k\":\"text\",\"s\":" << vp::bytes(text) << ",\"a\":[]}";
    text.clear();
}
static std::vector<std::string> names(std::string const& src) {
    // the attribute names to ask for: every run of name characters
    std::vector<std::string> r;
    std::string w;
    for (std::size_t i = 0; i <= src.size(); ++i) {
        unsigned char c = i < src.size() ? src[i] : ' ';
        if (std::isalnum(c) || c == ':' || c == '-' || c == '_' || c == '.') w += c;
        else { if (!w.empty() && std::find(r.begin(), r.end(), w) == r.end()) r.push_back(w); w.clear(); }
    }
    return r;
}
static void walk(std::ostream& o, xml_element* n, std::vector<std::string> const& ns) {
    for (; n; n = n->next()) {
        if (n->type_ == xml_element::element_text) { text += n->contents_; continue; }
        flush(o); sep(o);
        o << "{\"k\":\"open\",\"s\":" << vp::bytes(n->name_) << ",\"a\":[";
        bool f = true;
        for (std::size_t i = 0; i < ns.size(); ++i)
            if (n->has_attribute(ns[i])) {
                string_view v = n->get_attribute(ns[i]);
                o << (f ? "" : ",") << "{\"n\":" << vp::bytes(ns[i]) << ",\"v\":" << vp::bytes(std::string(v.begin(), v.end())) << "}";
                f = false;
            }
        o << "]}";
        walk(o, n->children(), ns);
        flush(o); sep(o);
        o << "{\"k\":\"close\",\"s\":[],\"a\":[]}";
    }
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string src = vp::unhex(line);
        std::unique_ptr<char[]> buf(new char[src.size()]);
        std::memcpy(buf.get(), src.data(), src.size());
        string_view view(buf.get(), src.size());
        std::ostringstream o;
        int err = -1;
        text.clear(); any = false;
        try {
            xml_tree tree = xml_parse(view);
            walk(o, tree.root(), names(src));
            flush(o);
        } catch (xml_parse_error& e) {
            o.str("");
            err = (int)(e.pos - view.begin());
        }
        std::ostringstream printed;
        print_string(view, printed);
        std::cout << "{\"src\":" << vp::bytes(src) << ",\"err\":" << err << ",\"evs\":[" << o.str() << "],\"dec\":"
                  << vp::bytes(decode_string(view)) << ",\"enc\":" << vp::bytes(encode_string(view)) << ",\"prt\":"
                  << vp::bytes(printed.str()) << "}" << std::endl;
    }
}
