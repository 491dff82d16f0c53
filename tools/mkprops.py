#!/usr/bin/env python3
# Regenerates properties.jsonl from one readable place.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Accepted documents always give well-formed output",
 "Whenever a document is processed successfully, the BoostBook output is well-formed XML and each generated HTML page is tag-balanced: every element is closed in the right order, no element carries the same attribute twice, attribute values are quoted, and no raw '<' or bare '&' coming from the document's text appears in text or attribute values. This holds for every combination and nesting of markup elements, paragraphs, lists, tables, templates, macros, conditionals and includes, with and without pretty printing, in every language version (raw escapes written by the author with ''' are the author's own responsibility).",
 ["inputs","configurations"], "every accepted document, language version 1.1-1.7, output format and printing option",
 "The gold files fix the output of about a hundred documents; the combinations of nesting are unbounded, and the unit tests never look at generated documents.",
 ["src/actions.cpp","src/markups.cpp","src/main_grammar.cpp","src/state.cpp","src/post_process.cpp","src/bb2html.cpp"],
 [("paired pre/post markup","src/markups.cpp"),("paragraph open/close","src/actions.cpp paragraph_action"),("list stack","src/main_grammar.cpp"),("tag printing","src/html_printer.cpp")],
 [("phrase/out","output collected so far","src/state.hpp")],
 ["output file of the quickbook executable"])
prop("C02", "Ids are unique, explicit ids survive, and links keep pointing at them",
 "In the BoostBook generated for one document no two elements have the same id. An id the author gives explicitly (section, heading, table, anchor or document id) appears exactly as the language version's rules build it, and an id that had to be generated from a title is the title's identifier (lower-cased, non-alphanumerics turned to '_'), changed only by appending a number - shortening it first if it grows past the length limit - when it would clash; explicit ids are never changed in favour of a generated one.",
 ["inputs","histories"], "every sequence of sections, headings, anchors, tables and includes, any titles and ids, any clash pattern",
 "Clashes depend on the whole history of ids in a document, including the shortened and numbered ids generated for others; tests only contain a few clashes.",
 ["src/document_state.cpp","src/id_generation.cpp","src/id_xml.cpp","src/utils.cpp"],
 [("placeholder resolution","src/id_generation.cpp"),("id rewriting in xml","src/id_xml.cpp"),("make_identifier","src/utils.cpp")],
 [("placeholders","ids waiting to be resolved","src/document_state_impl.hpp")], ["id attributes in the output"])
prop("C03", "Section elements nest exactly as the section markup says",
 "Every [section] opens one section element inside the innermost open section and every [endsect] closes the innermost one, so the section tree of the output mirrors the markup, and text, headings and includes land inside the section that is open where they are written. An [endsect] with nothing to close, an [endsect:id] whose id differs from the section it closes, and a template that does not close or over-closes sections are reported and make the run fail, in every language version that has the check; sections left open at the end of a file are closed for it (a warning, or an error in strict mode).",
 ["inputs","histories"], "every sequence and nesting of section, endsect, heading, include and template calls",
 "The existing documents contain a handful of fixed section structures, and the unit tests none.",
 ["src/actions.cpp","src/document_state.cpp","src/doc_info_actions.cpp","src/state.cpp"],
 [("section level bookkeeping","src/document_state.cpp"),("begin_section_action/end_section_action","src/actions.cpp"),("closing at end of file","src/doc_info_actions.cpp post"),("min_section_level per template","src/state.hpp")],
 [("section_level","number of open sections in the file","src/document_state.cpp")], ["section elements of the output, error messages, exit status"])
prop("C04", "A macro use always shows the definition in force at that point",
 "A macro used in text expands to the definition in force there: from language version 1.6 on the most recent one made before that point in the current scope, in earlier versions the first one (a redefinition is ignored); text before the definition shows the plain word. Definitions made in an included file vanish when the include ends, and only an import from a 1.6+ document brings a file's macros into the importer. A redefinition never changes text already written, macro bodies are expanded where they are defined, a macro is only recognised as a whole word (the longest name that fits), and __FILENAME__ always names the file currently being read.",
 ["inputs","histories"], "every sequence of definitions, redefinitions, uses, includes and imports, per language version",
 "Scoping errors only show for particular orders of define/use across nested files; tests have a few fixed orders.",
 ["src/actions.cpp","src/state_save.hpp","src/state.cpp","src/quickbook.cpp"],
 [("macro table copy/restore","src/state_save.hpp"),("macro_definition_action","src/actions.cpp"),("macro rule","src/main_grammar.cpp")],
 [("macro","symbol table of macros","src/state.hpp")], ["text of the output"])
prop("C05", "Template calls bind arguments and names by scope",
 "A template call is replaced by the template's body with each parameter bound to the corresponding argument, and each argument is evaluated in the scope of the caller; a name inside the body refers to the nearest definition visible where the template was defined (language 1.5+) or where it is called (before 1.5). A wrong number of arguments, a duplicate definition in one scope, or unbounded recursion (straight or branching) is reported as an error and never expands; after a call the caller's templates, macros, sections and source mode are what they were.",
 ["inputs","programs"], "every set of nested/shadowing template definitions and calls, arguments containing calls, imports",
 "Scope resolution depends on the shape of the call tree; the tests only have a few fixed trees.",
 ["src/template_stack.cpp","src/template_stack.hpp","src/actions.cpp","src/state_save.hpp"],
 [("scope chain","src/template_stack.cpp"),("call_template","src/actions.cpp"),("template_state","src/state_save.hpp")],
 [("scopes","stack of template scopes with parent links","src/template_stack.hpp")], ["text of the output, errors"])
prop("C06", "Includes and imports are inserted once, in order, and leave no trace",
 "Including a file puts its whole content at the point of the include and then continues after it, with the including file's language version, file name, macros and open sections as they were before, whatever the included file does; from version 1.6 on its templates and source mode are restored too (before that, templates defined and the mode set in the included file stay in force). An import inserts nothing: from 1.6 on it brings the macros and templates of the file, before that only code snippets, and never touches the importer's sections, ids or mode. A wildcard include (1.7) inserts every matching file exactly once for each search location (its own directory, then the -I directories) it is found from, in a fixed (sorted) order, a file that cannot be found is an error, and files that include themselves without end are reported as an error.",
 ["inputs","histories"], "every include/import graph without cycles, mix of versions, wildcard pattern and directory content",
 "Leaks only show for particular combinations of file versions and following text; the tests have a few include trees.",
 ["src/actions.cpp","src/include_paths.cpp","src/state_save.hpp","src/doc_info_actions.cpp"],
 [("file_state save/restore","src/state_save.hpp"),("load_quickbook","src/actions.cpp"),("include_search","src/include_paths.cpp")],
 [("current_file / qbk_version_n","file and version being parsed","src/state.hpp")], ["output text, dependency lists"])
prop("C07", "A conditional whose condition is false has no effect at all",
 "The body of [?macro ...] takes effect exactly when the macro is defined at that point (and [?!macro ...] exactly when it is not); otherwise nothing in it has any observable effect: no text, no id, no macro, template, section or include, no callout and no file dependency comes out of it. Nested conditionals take effect only if all the enclosing conditions hold.",
 ["inputs"], "every nesting of conditionals, condition values and kinds of body content",
 "Each side effect has to be suppressed separately in the code, so each kind of body at each nesting level is its own case.",
 ["src/actions.cpp","src/state.cpp","src/phrase_element_grammar.cpp"],
 [("conditional flag","src/actions.cpp cond_phrase_push"),("quiet processing","src/state.hpp conditional")],
 [("conditional","is the current text live","src/state.hpp")], ["output, dependencies, exit status"])
prop("C08", "Document text reaches the output unchanged and properly escaped",
 "Every ordinary character of a paragraph, title, code block, inline code or attribute value appears in the output in the original order, with the XML special characters written as entities, so that reading the output back as XML yields the original text; backslash escapes and \\uXXXX yield exactly the named character and ''' text is passed through byte for byte. HTML output reproduces the same text again, and URLs and attributes are encoded so that decoding gives the original bytes.",
 ["inputs"], "every sequence of characters, including multi-byte UTF-8, markup characters and entities, in every text position",
 "Tests sample a few special characters in a few positions.",
 ["src/utils.cpp","src/actions.cpp","src/id_xml.cpp","src/bb2html.cpp","src/html_printer.cpp"],
 [("print_char/print_string","src/utils.cpp"),("escape_unicode_action","src/actions.cpp"),("encode","src/html_printer.cpp")],
 [], ["output text"])
prop("C09", "Pretty printing never changes the document",
 "Pretty-printing only inserts or removes white space between words and tags: the sequence of tags, attributes, words and comments is exactly that of its input, the content of listings (programlisting, pre) keeps every line up to blanks at line ends, that of escaped passages is byte-identical, and, as long as no line has to be broken for its length, the result does not depend on how the input was already laid out in insignificant white space. An end tag without a start tag is refused with an error rather than silently altered.",
 ["inputs","configurations"], "every tag/text sequence, indentation and line width setting",
 "The unit tests pretty-print a dozen short strings at one width.",
 ["src/post_process.cpp","src/post_process.hpp"],
 [("pretty_printer","src/post_process.cpp"),("tidy_grammar","src/post_process.cpp")],
 [("column/indent/tags","layout state","src/post_process.cpp")], ["post_process() result"])
prop("C10", "Every position in derived text maps back to where it came from",
 "For text assembled from a source file (unindented code, snippets, with or without generated parts), each character taken from the source maps to its original line and column, and generated text maps to the point where it was inserted. Positions in errors and warnings therefore always name the file, line that contains the offending markup, also through snippets, imports and template bodies.",
 ["inputs","histories"], "every sequence of section additions (plain, unindented, generated) over any source text, any query position",
 "The unit test checks a few positions in a few texts.",
 ["src/files.cpp","src/files.hpp","src/code_snippet.cpp","src/stream.cpp"],
 [("mapped_file sections","src/files.cpp"),("relative_position","src/files.cpp")],
 [("mapped_sections","list of (original,our) positions","src/files.cpp")], ["file::position_of, error message line numbers"])
prop("C11", "Loaded sources are the file's text with uniform newlines and no BOM",
 "Loading a file yields its bytes with any UTF-8 byte order mark dropped and each CR, LF or CRLF line end turned into one newline, and nothing else changed; UTF-16 files are refused. Loading the same path again in one run yields the same contents, and line numbers count the normalised newlines.",
 ["inputs"], "every byte sequence at the start of a file and every mix of line endings",
 "The tests only use files with one kind of line ending.",
 ["src/files.cpp"],
 [("load / normalize","src/files.cpp")], [("files","cache of loaded files","src/files.cpp")], ["file contents / output text, line numbers"])
prop("C12", "The dependency list names exactly the files the run depended on",
 "The dependency output lists every file whose content the run read or whose presence it tested, and no other: each once, in sorted order, marked with whether it was found, and each wildcard search is listed with the files it matched. It is written even if the document contains errors, escaped so that every path can be read back unambiguously.",
 ["inputs","histories"], "every include/import/xinclude/image graph, include path order, set of files present, dependency options",
 "The existing tests compare the dependency lists of a few documents and never run here.",
 ["src/dependency_tracker.cpp","src/include_paths.cpp","src/quickbook.cpp","src/actions.cpp"],
 [("dependency_tracker","src/dependency_tracker.cpp")],
 [("dependencies/glob_dependencies","paths seen so far","src/dependency_tracker.hpp")], ["--output-deps, --output-checked-locations files"])
prop("C13", "Wildcard patterns match exactly the names they describe",
 "A pattern is accepted exactly when it is well formed (balanced, non-empty character classes, no empty escapes, no directory separators inside a class or repeated '**'), and a malformed one is reported as an error rather than misread. A well-formed pattern matches a name exactly when the name can be split into the pieces the pattern describes ('*' any text, '?' one character, '[...]' one listed character or range, '\\' literal), however the wildcards are combined; splitting a path at its first wildcard component loses nothing.",
 ["inputs"], "every pattern and every name",
 "The unit test has about a hundred fixed pattern/name pairs; backtracking cases are unbounded.",
 ["src/glob.cpp","src/glob.hpp"],
 [("check_glob/glob/glob_split","src/glob.cpp")], [], ["check_glob, glob, find_glob_char, glob_unescape; wildcard includes"])
prop("C14", "Generated relative paths and URLs lead to the file they stand for",
 "The relative path computed from one location to another, when followed from the first location, arrives at the second; this holds for any mix of absolute, relative, '.' and '..' components. File names written as URLs are escaped so that decoding gives the name back, and links and images in output placed anywhere relative to the sources still reach their target.",
 ["inputs","configurations"], "every pair of locations, output directory and base directory",
 "Tests run with one directory layout.",
 ["src/path.cpp","src/path.hpp","src/include_paths.cpp","src/utils.cpp","src/html_printer.cpp","src/boostbook_chunker.cpp"],
 [("path_difference, generic_to_path, file_path_to_url","src/path.cpp")], [], ["xi:include hrefs, xml:base, link hrefs, image URLs"])
prop("C15", "Value lists keep their contents, order and identity",
 "A value list built step by step contains exactly the values added, in order; sorting is by tag and keeps the order of equal tags; saving and restoring a builder brings back exactly the earlier partial list. Reading a list through any number of consumers and copies never changes it, a consumer yields each value once and in order and reports a wrong or missing value as an error, and values remain usable as long as anything refers to them, with no leak.",
 ["histories"], "every sequence of builder, copy, sort, save/restore, list and consumer operations",
 "The unit tests run a few fixed sequences.",
 ["src/values.cpp","src/values.hpp","src/values_parse.hpp"],
 [("value_builder, value_list_impl","src/values.cpp"),("value_consumer","src/values.hpp")],
 [("builder","list under construction and saved builders","src/values.hpp")], ["values API"])
prop("C16", "Tree edits move exactly the nodes asked for",
 "Building, extracting and inserting tree nodes keeps every node reachable exactly once with consistent parent, child and sibling links: after any sequence of additions, extractions and insertions the tree read in either direction is exactly the one the operations describe. An extracted part keeps its own children and order, and nodes outside it keep theirs.",
 ["histories"], "every sequence of builder and tree operations",
 "No unit test touches the trees.",
 ["src/tree.cpp","src/tree.hpp"],
 [("tree_builder_base","src/tree.cpp")], [("root/current, parent/children/next/prev","tree links","src/tree.hpp")], ["tree API, HTML output"])
prop("C17", "HTML pages partition the document and navigation is exact",
 "In multi-page HTML output every part of the document appears in exactly one page, in document order, and single-page output contains the same content as one page. The contents list of a part that isn't a section names its direct parts (and those of parts that aren't sections, and sections one level below) exactly once in order, previous/next links name the neighbouring pages, up and home links the page of the enclosing part and the first page, and every internal link leads to the page and fragment that really holds its target; pages have distinct file names.",
 ["inputs"], "every section tree, set of ids (including missing and clashing ones) and link",
 "No unit test builds HTML; the gold files are single fixed documents.",
 ["src/boostbook_chunker.cpp","src/bb2html.cpp","src/id_xml.cpp"],
 [("chunk_document","src/boostbook_chunker.cpp"),("id_to_path_map / get_link_from_path","src/bb2html.cpp")],
 [("chunk tree","pages with title/contents/children","src/boostbook_chunker.hpp")], ["files written by --output-format html"])
prop("C18", "Errors are always reported, never mistaken for success",
 "The exit status is 0 exactly when no error was reported, and then the requested outputs have been written completely; if an error was reported while options or documents were read, the exit status is non-zero and no document is written (dependency lists still are; BoostBook that only could not be indented is written as it is, with a non-zero status). With --expect-errors the result is inverted, and a run of the same command with the same files always gives the same result.",
 ["inputs","configurations","fault_sequences"], "every document, with errors of every kind in every position (also inside included, imported, template, table, or conditional text), and unreadable or unwritable files",
 "Exit handling is never executed by the unit tests that run here.",
 ["src/quickbook.cpp","src/actions.cpp","src/state.cpp"],
 [("error_count","src/state.hpp"),("parse_document / main","src/quickbook.cpp")],
 [("error_count","errors so far","src/state.hpp")], ["exit status, output file, stderr"])
prop("C19", "List items nest by their indentation",
 "Items marked '*' or '#' form lists by indentation: a deeper item opens a list inside the previous item, an equal one continues the list, and a shallower one closes lists back to its level; each item's text, and every paragraph or code block indented under it (1.7), stays inside that item. Every list opened is closed again with items never directly inside items, and a change of marker at one level is an error.",
 ["inputs"], "every sequence of marker, indentation (spaces or tabs), paragraph, code and blank lines",
 "Nesting depends on the whole stack of previous indentations; tests have a few shapes.",
 ["src/main_grammar.cpp","src/state.cpp"],
 [("list_stack","src/main_grammar.cpp"),("start_list/end_list","src/state.cpp")],
 [("list_stack","open lists with their indentation","src/main_grammar.cpp")], ["itemizedlist/orderedlist/listitem structure"])
prop("C20", "Imported snippets contain exactly the marked source lines",
 "Importing a C++ or Python source defines one template per named snippet, whose code is exactly the lines between its start and end marks (nested and overlapping marks removed, the common indentation dropped, ignored passages left out, passthrough and quickbook comments turned into text), in order. A snippet never contains text from outside its marks, and a missing or unmatched mark is an error or warning, not lost text.",
 ["inputs"], "every arrangement of snippet, ignore, passthrough, callout and comment marks",
 "Tests import a few fixed source files.",
 ["src/code_snippet.cpp"],
 [("cpp/python snippet grammars and snippet stack","src/code_snippet.cpp")],
 [("snippet_stack","open snippets","src/code_snippet.cpp")], ["text of snippet calls in the output"])
prop("C21", "Syntax highlighting never changes code",
 "The text of a highlighted code block or inline code, with the highlighting elements removed, is exactly the code that was written (in C++, Python or plain mode), character for character; only macros, callouts and `` escapes are replaced. Classified pieces never overlap, so keywords inside strings, comments or longer words are not marked as keywords.",
 ["inputs"], "every code text in each source mode",
 "Tests highlight a few fixed files.",
 ["src/syntax_highlight.cpp"],
 [("cpp_highlight/python_highlight/teletype_highlight","src/syntax_highlight.cpp")], [], ["programlisting/code content"])
prop("C22", "Callouts and footnotes are paired and numbered consistently",
 "Each callout mark in a code block yields exactly one mark in the code and exactly one entry in the list that follows it, in the same order, with ids that point at each other; a block without marks has no list. In HTML every footnote has one numbered reference and one text on the same page, numbers count up in document order, and each links to the other.",
 ["inputs"], "every arrangement of callouts and footnotes, also in templates, tables, titles and several files",
 "Tests contain a few callout lists.",
 ["src/state.cpp","src/actions.cpp","src/code_snippet.cpp","src/bb2html.cpp"],
 [("add_callout/end_callouts","src/state.cpp"),("footnotes","src/bb2html.cpp")],
 [("callouts","callouts of the current block","src/state.hpp")], ["co/callout elements, footnote links"])
prop("C23", "Document information is carried over field by field",
 "Each document attribute given (title, version, authors, copyright holders and year ranges, license, purpose, category, bibliographic ids, language, dirname, last revision, id) appears in the generated header exactly once with the value given, several authors, holders or categories in their written order, and nothing that was not given is invented. The order in which attributes are written does not matter, an invalid year range or version is an error, and nested files' information is only used where the language version says so.",
 ["inputs"], "every selection, repetition and order of document attributes",
 "The doc-info tests sample a few headers.",
 ["src/doc_info_actions.cpp","src/doc_info_grammar.cpp"],
 [("pre / write_boostbook_header","src/doc_info_actions.cpp")], [], ["output header"])
prop("C24", "Source mode applies exactly where it was set",
 "A code block or inline code is highlighted in the mode most recently set in its own file and scope: a mode set at top level lasts to the end of the file, a mode set inside a template call, included file or tagged element ends with it, and a one-shot mode ([!c++]) applies to the next element only. Highlighting mode never leaks from one file, template or element to another.",
 ["inputs","histories"], "every sequence of mode changes, code, templates, includes and elements",
 "Leaks show only in particular orders.",
 ["src/state.cpp","src/actions.cpp","src/main_grammar.cpp"],
 [("tagged source mode stack","src/state.cpp")], [("source_mode / tagged_source_mode_stack","modes in force","src/state.hpp")], ["roles of highlighted text"])
prop("C25", "Registered clean-ups run exactly once, newest first",
 "Everything handed to a cleanup scope is destroyed exactly once, when that scope ends, in reverse order of registration, also when the destruction of one object uses another that is still registered. Nothing is destroyed early or twice.",
 ["histories"], "every sequence of registrations and scopes",
 "The unit test registers a few objects.",
 ["src/cleanup.hpp"], [("cleanup list","src/cleanup.hpp")], [("registered","objects to destroy","src/cleanup.hpp")], ["destructor order"])
prop("C26", "Parsed XML mirrors its source or is refused with a position",
 "Reading XML produces a tree whose elements, attributes (with their values decoded) and text are exactly those of the source, in order and properly nested; comments, declarations and processing instructions are left out. Input whose tags do not match, or that ends inside a tag or with elements still open, is refused with an error that points at the offending place, and no input makes the reader crash or hang.",
 ["inputs"], "every sequence of tags, attributes, text, comments and declarations",
 "No unit test reads XML.",
 ["src/xml_parse.cpp","src/xml_parse.hpp"],
 [("xml_parse / read_tag","src/xml_parse.cpp")], [], ["xml_parse results"])
prop("C27", "Nested output collection never mixes or loses text",
 "Output collected between a push and the matching pop is completely separate: after the pop the outer text is exactly what it was before, and text swapped out is exactly what was written since the push, for any depth of nesting. Text always stays in the order in which it was written.",
 ["histories"], "every sequence of push, pop, append, swap and clear",
 "No unit test uses collectors.",
 ["src/collector.cpp","src/collector.hpp"], [("string_stream/collector","src/collector.cpp")], [("streams","stack of output strings","src/collector.hpp")], ["collector API"])
prop("C28", "HTML output renders every BoostBook element, losing nothing",
 "Converting BoostBook to HTML keeps all text and structure: each title becomes one heading, each list, table (with header rows, cells, titles), variable list, admonition, code block, image and link becomes its HTML counterpart with the same content in the same order, and the authors, editors, copyrights and legal notices of the document information appear once, under their part's title. No element's text is dropped, duplicated or moved.",
 ["inputs"], "every tree of BoostBook elements the processor can generate",
 "No unit test converts to HTML.",
 ["src/bb2html.cpp","src/html_printer.cpp"],
 [("node parsers","src/bb2html.cpp")], [], ["HTML output"])
prop("C29", "Tables, variable lists and block elements keep their cells and order",
 "A table's rows and cells, a variable list's terms and entries, and the paragraphs of an admonition, quote, footnote or list element appear in the output in the written order, each exactly once and inside their own row, entry or element; the first row of a table with more than one row becomes its header. Text after the element continues outside it, in a new paragraph.",
 ["inputs"], "every arrangement and nesting of tables, variable lists, block elements and paragraphs",
 "Tests contain a few shapes.",
 ["src/actions.cpp","src/block_element_grammar.cpp","src/main_grammar.cpp"],
 [("table_action, variable_list_action, paragraph_action","src/actions.cpp")], [], ["output structure"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
