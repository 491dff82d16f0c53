// Replays registrations with cleanup scopes; records every destruction and
// what was still alive of the object's own scope at that moment.
#include "vp.hpp"
#include "cleanup.hpp"
#include <memory>
#include <set>
using quickbook::cleanup;
static std::ostringstream logs;
static bool first;
static int made, alive;
static std::unique_ptr<cleanup> scopes[4];
static std::vector<int> members[5];
static std::set<int> living;
static void close_scope(int s) { delete scopes[s].release(); }
struct base {
    int id;
    std::vector<int>* with;
    int older;
    long guard;
    base(std::vector<int>* w) : id(++made), with(w), older(w->size()), guard(id * 77L) { w->push_back(id); ++alive; living.insert(id); }
    void log() {
        if (guard != id * 77L) { logs << (first ? "" : ",") << "{\"n\":-1,\"left\":[]}"; first = false; return; }
        guard = 0;
        logs << (first ? "" : ",") << "{\"n\":" << id << ",\"left\":[";
        first = false;
        bool f = true;
        living.erase(id);
        for (int m : *with) if (living.count(m)) { logs << (f ? "" : ",") << m; f = false; }
        logs << "]}";
        --alive;
    }
};
struct plain : base { plain(std::vector<int>* w) : base(w) {} ~plain() { log(); } };
// touches the memory of what was registered before it
struct user : base {
    std::vector<base*> others;
    user(std::vector<int>* w, std::vector<base*> const& o) : base(w), others(o) {}
    ~user() { long t = 0; for (base* b : others) t += b->guard - b->id * 77L; if (t) { logs << (first ? "" : ",") << "{\"n\":-2,\"left\":[]}"; first = false; } log(); }
};
struct owner : base {
    std::vector<int> own;
    cleanup c;
    owner(std::vector<int>* w) : base(w) { c.add(new plain(&own)); c.add(new plain(&own)); }
    ~owner() { log(); }
};
struct adder : base {
    cleanup* c;
    adder(std::vector<int>* w, cleanup* x) : base(w), c(x) {}
    ~adder() { log(); c->add(new plain(with)); }
};
struct closer : base {
    int t;
    closer(std::vector<int>* w, int x) : base(w), t(x) {}
    ~closer() { log(); close_scope(t); }
};
static void run(std::vector<std::string> const& w, std::ostream& out) {
    made = alive = 0;
    living.clear();
    std::vector<base*> objs[4];
    for (int i = 1; i < 4; ++i) { scopes[i].reset(new cleanup); members[i].clear(); }
    out << "{\"ops\":[";
    bool comma = false;
    auto doclose = [&](int s) {
        logs.str(""); first = true;
        close_scope(s);
        out << (comma ? "," : "") << "{\"o\":{\"op\":\"close\",\"s\":" << s << "},\"log\":[" << logs.str() << "]}";
        comma = true;
    };
    for (std::size_t p = 0; p < w.size();) {
        std::string op = w[p++];
        int s = std::atoi(w[p++].c_str());
        if (op == "close") { doclose(s); continue; }
        std::string k = w[p++];
        int t = std::atoi(w[p++].c_str());
        logs.str(""); first = true;
        cleanup* c = scopes[s].get();
        base* b = 0;
        base* r = 0;
        if (k == "plain") { plain* x = new plain(&members[s]); b = x; r = &c->add(x); }
        else if (k == "user") { user* x = new user(&members[s], objs[s]); b = x; r = &c->add(x); }
        else if (k == "owner") { owner* x = new owner(&members[s]); b = x; r = &c->add(x); }
        else if (k == "adder") { adder* x = new adder(&members[s], c); b = x; r = &c->add(x); }
        else { closer* x = new closer(&members[s], t); b = x; r = &c->add(x); }
        // add hands the object itself back
        if (b != r) { logs << (first ? "" : ",") << "{\"n\":-3,\"left\":[]}"; first = false; }
        objs[s].push_back(b);
        out << (comma ? "," : "") << "{\"o\":{\"op\":\"add\",\"s\":" << s << ",\"k\":\"" << k << "\",\"t\":" << t << "},\"log\":[" << logs.str() << "]}";
        comma = true;
    }
    for (int s = 1; s < 4; ++s) if (scopes[s]) doclose(s);
    out << "],\"leaked\":" << alive << "}";
}
int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::ostringstream o;
        run(vp::words(l), o);
        std::cout << o.str() << std::endl;
    }
}
