DOC = 'printf "%b" '
def doc(name, text): return "cat > %s <<'EOF_DOC'\n%s\nEOF_DOC\n" % (name, text)
RUN = '"$QBK" --debug %s --output-file out.xml main.qbk >log 2>&1; rc=$?\n'
BUGS = [
 dict(id="C02-dotted-ids", property="C02",
  needs="an explicit id containing a dot at one level and a generated or explicit id that resolves to the same dotted path through a section",
  what_it_breaks="two elements of the document get the same id",
  edits=[["src/document_state.cpp", "boost::range::count(id, '.') +", "(id.empty() ? 1 : 0) +"]],
  demo=doc("main.qbk", "[article Doc\n[quickbook 1.7]\n[id doc]\n]\n\n[section:a.b One]\n\nx\n\n[endsect]\n\n[section:a Two]\n\n[section:b Three]\n\ny\n\n[endsect]\n\n[endsect]\n")
   + RUN % "" + '[ $rc = 0 ] || exit 1\ndup=$(grep -o " id=\\"[^\\"]*\\"" out.xml | sort | uniq -d)\n[ -z "$dup" ]\n'),
 dict(id="C03-nested-template", property="C03",
  needs="a template called from another template closes a section that the outer template opened",
  what_it_breaks="an unbalanced template is not reported when it is called from another template",
  edits=[["src/actions.cpp", "            state.min_section_level = state.document.section_level();\n\n            ////", "            if (state.template_depth == 1)\n                state.min_section_level = state.document.section_level();\n\n            ////"],
         ["src/actions.cpp", "            if (state.document.section_level() != state.min_section_level) {", "            if (state.template_depth == 1\n                    ? state.document.section_level() != state.min_section_level\n                    : state.document.section_level() < state.min_section_level) {"]],
  demo=doc("main.qbk", "[article Doc\n[quickbook 1.6]\n[id doc]\n]\n\n[template inner[]\nword\n\n[endsect]\n]\n\n[template outer[]\n[section:again Again]\n\n[inner]\n]\n\n[outer]\n")
   + RUN % "" + '[ $rc != 0 ] && grep -q "Mismatched" log\n'),
 dict(id="C04-filename", property="C04",
  needs="an include made from inside a file that is itself included, followed by __FILENAME__ in the middle file",
  what_it_breaks="__FILENAME__ names the innermost included file after that include has ended",
  edits=[["src/actions.cpp", "        // restore the __FILENAME__ macro\n        state.update_filename_macro();", "        // restore the __FILENAME__ macro\n        if (!state.imported && state.include_depth < 1)\n            state.update_filename_macro();"],
         ["src/state.cpp", "        if (scope & scope_macros) state.macro = macro;\n", "        if (scope & scope_macros) {\n            std::string filename =\n                *boost::spirit::classic::find(state.macro, \"__FILENAME__\");\n            state.macro = macro;\n            *boost::spirit::classic::find(state.macro, \"__FILENAME__\") = filename;\n        }\n"]],
  demo=doc("main.qbk", "[article Doc\n[quickbook 1.7]\n[id doc]\n]\n\n[include b.qbk]\n\n[^__FILENAME__]\n") + doc("b.qbk", "[quickbook 1.7]\n\n[include c.qbk]\n\nafter __FILENAME__ here\n") + doc("c.qbk", "[quickbook 1.7]\n\nword\n")
   + RUN % "" + '[ $rc = 0 ] && grep -q "after b.qbk here" out.xml\n'),
 dict(id="C05-arg-scope", property="C05",
  needs="an argument that names a local parameter of the calling template which also exists as a global template",
  what_it_breaks="the argument is evaluated in the scope where the called template was defined, not the caller's",
  edits=[["src/actions.cpp", "                get_arguments(args, symbol->params, call_scope, first, state);", "                get_arguments(\n                    args, symbol->params,\n                    args.size() > 1 ? *symbol->lexical_parent : call_scope,\n                    first, state);"]],
  demo=doc("main.qbk", "[article Doc\n[quickbook 1.6]\n[id doc]\n]\n\n[template pa global]\n[template inner[x y] [x]-[y]]\n[template outer[pa] [inner [pa]..z]]\n\n[outer local]\n")
   + RUN % "" + '[ $rc = 0 ] && grep -q "local-z" out.xml\n'),
 dict(id="C06-wildcard-scope", property="C06",
  needs="a wildcard import in 1.7 of several files with an explicit include inside the second; the importer's flag is not restored",
  what_it_breaks="an include that follows a wildcard import inserts nothing",
  edits=[["src/actions.cpp", "            state.imported = (load_type == block_tags::import);", "            state.imported =\n                (load_type == block_tags::import) || save.include_depth > 0;"],],
  demo=doc("main.qbk", "[article Doc\n[quickbook 1.7]\n[id doc]\n]\n\n[include b.qbk]\n\nend\n") + doc("b.qbk", "[quickbook 1.7]\n\nmiddle\n\n[include c.qbk]\n") + doc("c.qbk", "[quickbook 1.7]\n\ninnerc\n\n[include d.qbk]\n")+ doc("d.qbk", "[quickbook 1.7]\n\ninnermost\n")
   + RUN % "" + '[ $rc = 0 ] && grep -q middle out.xml && grep -q innerc out.xml && grep -q innermost out.xml\n'),
 dict(id="C07-nested-cond", property="C07",
  needs="a conditional nested inside one whose condition is false, followed by a macro definition in the outer body",
  what_it_breaks="after the inner conditional the rest of the false outer body takes effect",
  edits=[["src/actions.cpp", "        state.conditional = saved_conditional;\n    }", "        state.conditional =\n            saved_conditional || state.conditional == saved_conditional;\n    }"]],
  demo=doc("main.qbk", "[article Doc\n[quickbook 1.6]\n[id doc]\n]\n\n[?nomac [?other x] [def __now__ defined]]\n\n[?__now__ leaked] word\n")
   + RUN % "" + '[ $rc = 0 ] && ! grep -q leaked out.xml\n'),
 dict(id="C13-backtrack", property="C13",
  needs="a pattern with two stars where the section after the first star matches a prefix first and the remaining text is only matched from a later position at the very end of the name",
  what_it_breaks="names that end exactly with the last section are not matched",
  edits=[["src/glob.cpp", "        if (pattern_it == pattern_end && filename_it != filename_end)\n            return false;", "        if (pattern_it == pattern_end &&\n            std::distance(filename_it, filename_end) > (*(pattern_end - 1) == '?'))\n            return false;"]],
  build=r'''cat > "$T/d.cpp" <<'EOF'
#include "glob.hpp"
#include <iostream>
int main(int c, char** v) { std::cout << quickbook::glob(v[1], v[2]) << std::endl; }
EOF
$CXX -I"$repo/src" -o "$T/d" "$T/d.cpp" "$repo/src/glob.cpp" || exit 3''',
  demo='[ "$("$T/d" "*b?" abbx)" = 1 ] && [ "$("$T/d" "a*b?" abc)" = 1 ] && [ "$("$T/d" "a?" abc)" = 0 ]\n'),
 dict(id="C15-sort-stable", property="C15",
  needs="sorting a list in which three or more elements with equal tags follow a larger one",
  what_it_breaks="the order of elements with equal tags is reversed by the sort",
  edits=[["src/values.cpp", "                        if ((*third)->tag_ <= (*first)->tag_) break;", "                        if ((*third)->tag_ < (*first)->tag_) break;"]],
  build=r'''cat > "$T/d.cpp" <<'EOF'
#include "values.hpp"
#include "files.hpp"
#include <iostream>
int main() {
  using namespace quickbook;
  for (unsigned n = 0; n < 3*3*3*3*3*3; ++n) {
    value_builder b; unsigned x = n; int t[6];
    for (int i = 0; i < 6; ++i) { t[i] = x % 3 + 1; x /= 3; b.insert(int_value(i, t[i])); }
    b.sort_list();
    value l = b.release();
    int lt = 0, li = -1;
    for (value::iterator i = l.begin(), e = l.end(); i != e; ++i) {
      int tag = i->get_tag(), v = i->get_int();
      if (tag < lt || (tag == lt && v < li)) return 1;
      lt = tag; li = v;
    }
  }
}
EOF
$CXX -I"$repo/src" -o "$T/d" "$T/d.cpp" "$repo/src/values.cpp" "$repo/src/files.cpp" $LIBS || exit 3''',
  demo='"$T/d"\n'),
 dict(id="C19-para-back", property="C19",
  needs="three list levels, a paragraph back at the outermost item's text, then an item at the second level (1.7)",
  what_it_breaks="the item after the paragraph is placed at the wrong depth",
  edits=[["src/main_grammar.cpp", "                        state_.end_list_item();\n                        state_.end_list(save.mark);\n                        list_indent = list_stack.top().indent;", "                        state_.end_list_item();\n                        state_.end_list(save.mark);"]],
  demo=doc("main.qbk", "[article Doc\n[quickbook 1.7]\n[id doc]\n]\n\n* one\n  * two\n\n  back to one\n\n  * three\n")
   + RUN % "" + '[ $rc = 0 ] || exit 1\nn=$(grep -o "<itemizedlist" out.xml | wc -l)\n[ "$n" = 3 ] && ! grep -q "assert" log\n'),
 dict(id="C24-section-mode", property="C24",
  needs="a section with a one-shot mode in which another mode is set for the rest of the file, followed by code",
  what_it_breaks="code after the mode change is highlighted in the section's mode",
  edits=[["src/state.cpp", "        result.update(document.section_source_mode());\n", "        if (document.section_source_mode().source_mode)\n            result = document.section_source_mode();\n"]],
  demo=doc("main.qbk", "[article Doc\n[quickbook 1.7]\n[id doc]\n]\n\n[!teletype]\n[section:a A]\n\n[c++]\n\n`class`\n\n[endsect]\n")
   + RUN % "" + '[ $rc = 0 ] && grep -q "role=.keyword" out.xml\n'),
 dict(id="C29-thead-span", property="C29",
  needs="a table whose first row has fewer cells than its last row, and at least three rows",
  what_it_breaks="a cell of the header row is left out",
  edits=[["src/actions.cpp", """            QUICKBOOK_FOR (value cell, values.consume()) {
                state.out << "<entry>" << cell.get_encoded() << "</entry>";
            }
            state.out << "</row>\\n"
                      << "</thead>\\n";""", """            int columns = 0;
            QUICKBOOK_FOR (value cell, values.consume()) {
                if (columns++ < span_count)
                    state.out << "<entry>" << cell.get_encoded() << "</entry>";
            }
            state.out << "</row>\\n"
                      << "</thead>\\n";"""]],
  demo=doc("main.qbk", "[article Doc\n[quickbook 1.6]\n[id doc]\n]\n\n[table\n[[aa] [bb] [cc]]\n[[dd] [ee]]\n]\n")
   + RUN % "" + '[ $rc = 0 ] && grep -q cc out.xml\n'),
]
