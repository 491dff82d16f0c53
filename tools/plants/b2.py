def drv(code, units):
    return "cat > \"$T/d.cpp\" <<'EOF'\n" + code.strip() + "\nEOF\n$CXX -g -fsanitize=address -I\"$repo/src\" -o \"$T/d\" \"$T/d.cpp\" " + " ".join('"$repo/src/%s.cpp"' % u for u in units) + " $LIBS || exit 3"
BUGS = [
 dict(id="C25-late-add", property="C25",
  needs="an object whose destructor hands another object to the same cleanup while it is being torn down",
  what_it_breaks="the late object is never destroyed",
  edits=[["src/cleanup.hpp", "        while (first_) {\n            detail::cleanup_node* to_delete = first_;\n            first_ = first_->next_;\n            delete to_delete;\n        }",
          "        detail::cleanup_node* node = first_;\n        first_ = 0;\n\n        while (node) {\n            detail::cleanup_node* to_delete = node;\n            node = node->next_;\n            delete to_delete;\n        }"]],
  build=drv('''
#include "cleanup.hpp"
int alive = 0;
struct plain { plain() { ++alive; } ~plain() { --alive; } };
struct late { quickbook::cleanup& c; late(quickbook::cleanup& x) : c(x) { ++alive; } ~late() { --alive; c.add(new plain()); } };
int main() { { quickbook::cleanup c; c.add(new late(c)); c.add(new plain()); } return alive != 0; }
''', []), demo='ASAN_OPTIONS=detect_leaks=0 "$T/d"\n'),
 dict(id="C27-swap-flush", property="C27",
  needs="a swap with a non-empty string while text written through the stream is still buffered",
  what_it_breaks="the buffered text stays behind and appears in the next contents",
  edits=[["src/collector.hpp", "            stream_ptr->flush();\n            std::swap(other, *buffer_ptr.get());", "            if (!buffer_ptr->empty() || other.empty()) stream_ptr->flush();\n            std::swap(other, *buffer_ptr.get());"]],
  build=drv('''
#include "collector.hpp"
int main() { quickbook::collector c; std::string s("kept"); c.get() << "text"; c.swap(s); return !(s == "text" && c.str() == "kept"); }
''', ["collector"]), demo='ASAN_OPTIONS=detect_leaks=0 "$T/d"\n'),
 dict(id="C16-extract-first", property="C16",
  needs="extracting the first child of a node and then working on the child that became first",
  what_it_breaks="the new first child still points back to the extracted one, so that the next insertion before it is lost",
  edits=[["src/tree.cpp", "                x->prev_->next_ = x->next_;\n            }\n            if (x->next_) {\n                x->next_->prev_ = x->prev_;\n            }", "                x->prev_->next_ = x->next_;\n                if (x->next_) {\n                    x->next_->prev_ = x->prev_;\n                }\n            }"]],
  build=drv('''
#include "tree.hpp"
#include <string>
using namespace quickbook::detail;
struct n : tree_node<n> { char c; n(char x) : c(x) {} };
int main() {
    tree_builder<n> b;
    b.add_element(new n('p')); b.start_children();
    n* x = new n('x'); b.add_element(x);
    n* y = new n('y'); b.add_element(y);
    b.end_children();
    tree<n> t = b.release();
    { tree<n> gone = t.extract(x); }
    tree_builder<n> b2; b2.add_element(new n('z'));
    tree<n> z = b2.release();
    y->add_before(std::move(z));
    std::string s;
    for (n* i = t.root()->children(); i; i = i->next()) s += i->c;
    return s != "zy";
}
''', ["tree"]), demo='ASAN_OPTIONS=detect_leaks=0 "$T/d"\n'),
 dict(id="C10-empty-sections", property="C10",
  needs="two stretches of removed text directly behind each other at the end of a derived file",
  what_it_breaks="the position of the end is reported at the first removed stretch",
  edits=[["src/files.cpp", "                    mapped_file_section::empty ||\n                mapped_sections.back().original_pos != original_pos) {", "                    mapped_file_section::empty ||\n                mapped_sections.back().our_pos != source().size()) {"]],
  build=drv('''
#include "files.hpp"
#include <fstream>
#include <iostream>
using namespace quickbook;
int main(int, char** v) {
    std::ofstream(v[1]) << "one\\ntwo\\nthree\\nfour\\n";
    file_ptr f = load(v[1], 106);
    string_iterator b = f->source().begin();
    mapped_file_builder m;
    m.start(f);
    m.add(quickbook::string_view(&*b, 3));
    m.add_at_pos(quickbook::string_view("", 0), b + 4);
    m.add_at_pos(quickbook::string_view("", 0), b + 14);
    file_ptr g = m.release();
    file_position p = g->position_of(g->source().end());
    std::cout << p << std::endl;
    return !(p.line == 4 && p.column == 1);
}
''', ["files"]), demo='ASAN_OPTIONS=detect_leaks=0 "$T/d" "$T/w/f"\n'),
 dict(id="C11-crlf-runs", property="C11",
  needs="a file with CR LF line ends in which one is followed by a bare LF (an empty line with another line end)",
  what_it_breaks="the empty line is lost, and every later position is one line early",
  edits=[["src/files.cpp", "                if (begin != end && *begin == '\\n') ++begin;", "                while (begin != end && *begin == '\\n')\n                    ++begin;"]],
  build=drv('''
#include "files.hpp"
#include <fstream>
using namespace quickbook;
int main(int, char** v) {
    std::ofstream(v[1], std::ios::binary) << "one\\r\\n\\ntwo\\r\\n\\r\\nthree";
    return load(v[1], 106)->source() != "one\\n\\ntwo\\n\\nthree";
}
''', ["files"]), demo='ASAN_OPTIONS=detect_leaks=0 "$T/d" "$T/w/f"\n'),
 dict(id="C12-glob-again", property="C12",
  needs="a wildcard search that is made a second time, after a different one",
  what_it_breaks="what the second search matched is listed under the other pattern",
  edits=[["src/dependency_tracker.cpp", "        last_glob = r.first;", "        if (r.second) last_glob = r.first;"]],
  build=drv('''
#include "dependency_tracker.hpp"
#include <sstream>
using namespace quickbook;
int main() {
    dependency_tracker t;
    t.add_glob("a*"); t.add_glob_match("a1");
    t.add_glob("b*"); t.add_glob_match("b1");
    t.add_glob("a*"); t.add_glob_match("a2");
    std::ostringstream o;
    t.write_dependencies(o, dependency_tracker::checked);
    return o.str() != "g a*\\n+ a1\\n+ a2\\ng b*\\n+ b1\\n";
}
''', ["dependency_tracker", "path", "utils"]), demo='ASAN_OPTIONS=detect_leaks=0 "$T/d"\n'),
 dict(id="C12-include-path", property="C12",
  needs="a file that is found in the second include directory only",
  what_it_breaks="the places that were looked at before it was found are not listed",
  edits=[["src/include_paths.cpp", "                    if (state.dependencies.add_dependency(full)) {", "                    if ((count < 2 || fs::exists(full)) &&\n                        state.dependencies.add_dependency(full)) {"]],
  demo="""mkdir one two three
cat > main.qbk <<'EOF'
[article Doc
[quickbook 1.6]
[id doc]
]

[include x.qbk]
EOF
printf '[quickbook 1.6]\\n\\nword\\n' > three/x.qbk
"$QBK" --debug -I one -I two -I three --output-file out.xml --output-checked-locations deps main.qbk >log 2>&1 || exit 1
[ "$(grep -c '^- .*x.qbk' deps)" = 3 ]
"""),
 dict(id="C09-code-tab", property="C09",
  needs="a code listing with a line that starts with a tab",
  what_it_breaks="the tab is lost: the listing's text changes",
  edits=[["src/post_process.cpp", "                    ++i;\n                    if (i != l && *i == '\\r') {\n                        ++i;\n                    }", "                    ++i;\n                    if (i != l && *i != ' ' && *i != '\\n' &&\n                        std::isspace(static_cast<unsigned char>(*i))) {\n                        ++i;\n                    }"]],
  build=drv('''
#include "post_process.hpp"
int main() {
    std::string r = quickbook::post_process("<para>x</para><programlisting>a\\n\\tb\\n\\n\\t\\tc</programlisting>", -1, -1, false);
    return r.find("a\\n\\tb\\n\\n\\t\\tc") == std::string::npos;
}
''', ["post_process"]), demo='ASAN_OPTIONS=detect_leaks=0 "$T/d"\n'),
]
