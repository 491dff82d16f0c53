// Replays tree operations, recording every tree after each in both reading
// directions.
#include "vp.hpp"
#include "tree.hpp"
#include <map>
#include <set>
using namespace quickbook::detail;
static int alive = 0;
struct node : tree_node<node> { int id; node(int i) : id(i) { ++alive; } ~node() { --alive; } };
static bool links;
static int limit;
static void fwd(std::ostream& o, node* n, node* parent, bool check) {
    o << '[';
    bool first = true;
    node* prev = 0;
    for (; n && ++limit < 500; n = n->next()) {
        if (check && (n->parent() != parent || n->prev() != prev)) links = false;
        if (!first) o << ',';
        first = false;
        o << '[' << n->id << ',';
        fwd(o, n->children(), n, check);
        o << ']';
        prev = n;
    }
    if (limit >= 500) links = false;
    o << ']';
}
static std::string bwd(node* n) {
    if (!n) return "[]";
    while (n->next() && ++limit < 1000) n = n->next();
    std::string r;
    for (; n && ++limit < 1500; n = n->prev()) {
        std::ostringstream o;
        o << '[' << n->id << ',' << bwd(n->children()) << ']';
        r = o.str() + (r.empty() ? "" : ",") + r;
    }
    if (limit >= 1000) links = false;
    return "[" + r + "]";
}
static void run(std::vector<std::string> const& w, std::ostream& out) {
    alive = 0;
    out << "{\"ops\":[";
    {
        tree_builder<node> b;
        tree<node> reg[4];
        std::map<int, node*> nodes;
        int made = 0;
        for (std::size_t p = 0; p < w.size();) {
            if (p) out << ',';
            std::string op = w[p++];
            out << "{\"o\":{\"op\":\"" << op << "\"";
            int i = 0, n = 0;
            if (op != "add" && op != "start" && op != "end") { i = std::atoi(w[p++].c_str()); out << ",\"i\":" << i; }
            if (op != "add" && op != "start" && op != "end" && op != "release" && op != "drop") { n = std::atoi(w[p++].c_str()); out << ",\"n\":" << n; }
            if (op == "add") { node* x = new node(++made); nodes[made] = x; b.add_element(x); }
            else if (op == "start") b.start_children();
            else if (op == "end") b.end_children();
            else if (op == "release") reg[i] = b.release();
            else if (op == "bextract") reg[i] = b.extract(nodes[n]);
            else if (op == "extract") {
                // from the tree that holds it
                int j = 1;
                for (; j < 4; ++j) {
                    node* q = nodes[n];
                    for (int c = 0; c < 500 && (q->parent() || q->prev()); ++c) q = q->parent() ? q->parent() : q->prev();
                    if (q == reg[j].root()) break;
                }
                if (j < 4) reg[i] = reg[j].extract(nodes[n]);
            }
            else if (op == "before") nodes[n]->add_before(std::move(reg[i]));
            else if (op == "after") nodes[n]->add_after(std::move(reg[i]));
            else if (op == "first") nodes[n]->add_first_child(std::move(reg[i]));
            else if (op == "last") nodes[n]->add_last_child(std::move(reg[i]));
            else if (op == "move") reg[i] = std::move(reg[n]);
            else if (op == "drop") { tree<node> x(std::move(reg[i])); }
            links = true; limit = 0;
            std::ostringstream f, g;
            f << "{\"b\":"; fwd(f, b.root(), 0, true); f << ",\"regs\":[";
            for (int j = 1; j < 4; ++j) { if (j > 1) f << ','; fwd(f, reg[j].root(), 0, true); }
            f << "]}";
            g << "{\"b\":" << bwd(b.root()) << ",\"regs\":[";
            for (int j = 1; j < 4; ++j) { if (j > 1) g << ','; g << bwd(reg[j].root()); }
            g << "]}";
            out << "},\"fwd\":" << f.str() << ",\"bwd\":" << g.str() << ",\"links\":" << (links ? 1 : 0)
                << ",\"cur\":" << (b.current() ? b.current()->id : 0) << ",\"par\":" << (b.parent() ? b.parent()->id : 0) << "}";
            if (!links) break;
        }
        if (!links) { out << "],\"leaked\":0}"; std::cout << static_cast<std::ostringstream&>(out).str() << std::endl; std::_Exit(3); }
    }
    out << "],\"leaked\":" << alive << "}";
}
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::ostringstream o;
        run(vp::words(l), o);
        std::cout << o.str() << std::endl;
    }
}
