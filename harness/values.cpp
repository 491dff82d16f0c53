// Replays a sequence of value operations and records the result and the
// contents of every register after each.
#include <cstdlib>
#include <new>
#include "vp.hpp"
#include "values.hpp"
static long live = 0;
void* operator new(std::size_t n) { ++live; void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
using namespace quickbook;
static file_ptr src;

// The kind of a value is kept in its content: ints are 10+n, encoded "e"/"",
// quickbook text from the source "q"/"".
static value make(std::string const& k, int tag, int n) {
    if (k == "int") return int_value(10 + n, tag);
    if (k == "enc") return encoded_value(n ? "e" : "", tag);
    if (k == "qbk") return qbk_value(src, src->source().begin(), src->source().begin() + n, tag);
    if (k == "encqbk") return encoded_qbk_value(src, src->source().begin(), src->source().begin() + 1, n ? "z" : "", tag);
    return empty_value(tag);
}
template <class T> static bool has_source(T const& v) {
    try { v.get_quickbook(); return true; } catch (std::exception&) { return false; }
}
template <class T> static void shape(std::ostream& o, T const& v) {
    int n = 0;
    std::string k;
    if (v.is_list()) k = "list";
    else if (!v.check()) k = "nil";
    else if (v.is_encoded()) {
        std::string e = v.get_encoded();
        if (e == "10" || e == "11") { k = "int"; n = v.get_int() - 10; }
        else if (has_source(v)) { k = "encqbk"; n = e == "z" ? 1 : e == "" ? 0 : 97; }
        else { k = "enc"; n = e == "e" ? 1 : e == "" ? 0 : 99; }
    } else { k = "qbk"; n = (int)v.get_quickbook().size(); if (n && v.get_quickbook().to_s() != "q") n = 98; }
    o << "[\"" << k << "\"," << v.get_tag() << ',' << n << ",[";
    if (k == "list") {
        bool first = true;
        for (value::iterator i = v.begin(), e = v.end(); i != e; ++i) { if (!first) o << ','; first = false; shape(o, *i); }
    }
    o << "]]";
}
static void run(std::vector<std::string> const& w, std::ostream& out) {
    value_builder b;
    value reg[5];
    std::vector<value_consumer*> con(3, (value_consumer*)0);
    std::size_t p = 0;
    bool firstop = true;
    while (p < w.size()) {
        std::string op = w[p++];
        std::string res;
        std::ostringstream o;
        struct arg { std::vector<std::string> const& w; std::size_t& p; int operator()() { return std::atoi(w[p++].c_str()); } } next = {w, p};
        o << "{\"op\":\"" << op << "\"";
        if (op == "make") { int i = next(); std::string k = w[p++]; int t = next(), n = next(); reg[i] = make(k, t, n);
            o << ",\"i\":" << i << ",\"k\":\"" << k << "\",\"tag\":" << t << ",\"n\":" << n; }
        else if (op == "insert") { int i = next(); b.insert(reg[i]); o << ",\"i\":" << i; }
        else if (op == "extend") { int i = next(); b.extend(reg[i]); o << ",\"i\":" << i; }
        else if (op == "start") { int t = next(); b.start_list(t); o << ",\"tag\":" << t; }
        else if (op == "finish") b.finish_list();
        else if (op == "clear") b.clear_list();
        else if (op == "save") b.save();
        else if (op == "restore") b.restore();
        else if (op == "sort") b.sort_list();
        else if (op == "release") { int i = next(); reg[i] = b.release(); o << ",\"i\":" << i; }
        else if (op == "empty") res = b.empty() ? "yes" : "no";
        else if (op == "assign" || op == "elem" || op == "last" || op == "eq") {
            int i = next(), j = next();
            o << ",\"i\":" << i << ",\"j\":" << j;
            if (op == "assign") reg[i] = reg[j];
            else if (op == "eq") res = reg[i] == reg[j] ? "yes" : "no";
            else if (!reg[j].empty()) {
                value::iterator it = reg[j].begin(), e = reg[j].end(), q = it;
                if (op == "last") for (; it != e; ++it) q = it;
                reg[i] = *q;
            }
        }
        else if (op == "open") { int c = next(), i = next(); delete con[c]; con[c] = new value_consumer(reg[i]); o << ",\"c\":" << c << ",\"i\":" << i; }
        else {
            int c = next();
            o << ",\"c\":" << c;
            value_consumer& v = *con[c];
            try {
                if (op == "check") res = v.check() ? "yes" : "no";
                else if (op == "finishc") { v.finish(); res = "ok"; }
                else if (op == "checkt") { int t = next(); o << ",\"tag\":" << t; res = v.check(t) ? "yes" : "no"; }
                else if (op == "consume") { int i = next(); o << ",\"i\":" << i; reg[i] = v.consume(); res = "ok"; }
                else if (op == "opt") { int i = next(); o << ",\"i\":" << i; reg[i] = v.optional_consume(); res = "ok"; }
                else if (op == "consumet") { int t = next(), i = next(); o << ",\"tag\":" << t << ",\"i\":" << i; reg[i] = v.consume(t); res = "ok"; }
                else if (op == "optt") { int t = next(), i = next(); o << ",\"tag\":" << t << ",\"i\":" << i; reg[i] = v.optional_consume(t); res = "ok"; }
                else { std::cerr << "bad op " << op << "\n"; std::exit(3); }
            } catch (value_error&) { res = "error"; }
        }
        o << "}";
        out << (firstop ? "" : ",") << "{\"o\":" << o.str() << ",\"res\":\"" << res << "\",\"regs\":[";
        firstop = false;
        for (int i = 1; i <= 4; ++i) { if (i > 1) out << ','; shape(out, reg[i]); }
        out << "],\"empty\":[";
        for (int i = 1; i <= 4; ++i) out << (i > 1 ? "," : "") << (reg[i].empty() ? 1 : 0);
        out << "]}";
    }
    for (std::size_t c = 0; c < con.size(); ++c) delete con[c];
}
int main() {
    src = new file(fs::path("src"), std::string("qq"), 107u);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> w = vp::words(line);
        { std::ostringstream warm; run(w, warm); }
        long before = live;
        {
            std::ostringstream out;
            run(w, out);
            std::cout << "{\"ops\":[" << out.str() << "],\"leaked\":";
        }
        std::cout << live - before << "}" << std::endl;
    }
}
