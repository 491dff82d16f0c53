From cd141e463062dd58fe5c930047f4dd36009904a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 01/49] fix: reject non-ascii characters anywhere in a glob
 pattern
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

check_glob only looked at the characters outside square brackets and
escapes, so a pattern such as '[é]*' was accepted and then silently
matched the wrong names.
---
 src/glob.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glob.cpp b/src/glob.cpp
index 70089fb..9d29877 100644
--- a/src/glob.cpp
+++ b/src/glob.cpp
@@ -34,9 +34,13 @@ namespace quickbook
         glob_iterator begin = pattern.begin();
         glob_iterator end = pattern.end();
 
-        while (begin != end) {
-            if (*begin < 32 || (*begin & 0x80)) is_ascii = false;
+        // Check every character, including the ones that are skipped below
+        // because they are escaped or inside square brackets.
+        for (glob_iterator it = begin; it != end; ++it) {
+            if (*it < 32 || (*it & 0x80)) is_ascii = false;
+        }
 
+        while (begin != end) {
             switch (*begin) {
             case '\\':
                 check_glob_escape(begin, end);
-- 
2.43.0


From 86ea36a072711a5ebb23c6600d7f977a1adfc242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 02/49] fix: use the id given by an include for the included
 document

---
 src/document_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document_state.cpp b/src/document_state.cpp
index aaf872e..906bc19 100644
--- a/src/document_state.cpp
+++ b/src/document_state.cpp
@@ -321,8 +321,8 @@ namespace quickbook
 
             if (!initial_doc_id.empty()) {
                 return create_new_section(
-                    empty_value(), id, id_category::explicit_section_id,
-                    default_source_mode);
+                    empty_value(), initial_doc_id,
+                    id_category::explicit_section_id, default_source_mode);
             }
             else if (!title.empty()) {
                 return create_new_section(
-- 
2.43.0


From 41dcd11f3c5b53dee1b68ab26cfdd65bd0c9cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 03/49] fix: don't treat the block after an explicit list as
 one of its items

---
 src/block_element_grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_element_grammar.cpp b/src/block_element_grammar.cpp
index baba339..38c7121 100644
--- a/src/block_element_grammar.cpp
+++ b/src/block_element_grammar.cpp
@@ -259,7 +259,7 @@ namespace quickbook
             ;
 
         local.list =
-            *(  cl::eps_p                       [explicit_list]
+            *(  cl::eps_p(space >> '[')         [explicit_list]
             >>  local.cell
             )
             ;
-- 
2.43.0


From 5ed62de5c794c6981169f7f182e10932ff412822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:00 +0000
Subject: [PATCH 04/49] fix: let a document included from a template close its
 own sections

---
 src/doc_info_actions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 1472eed..b8360dc 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -314,6 +314,10 @@ namespace quickbook
             compatibility_version, info.include_doc_id_, info.id_,
             info.doc_title);
 
+        // The document has its own sections (state_save restores this after
+        // a nested document).
+        state.min_section_level = state.document.section_level();
+
         // Make sure we really did have a document info block.
 
         assert(info.doc_title.check() && !info.doc_type.empty());
-- 
2.43.0


From c7135c90804f279aff768d8dcd60599bb3d61341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:00 +0000
Subject: [PATCH 05/49] fix: don't leave sections of an imported file open in
 the importer

---
 src/actions.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index e53bbde..5b358aa 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1822,9 +1822,23 @@ namespace quickbook
             // update the __FILENAME__ macro
             state.update_filename_macro();
 
+            // An imported file's output is thrown away, so it can't open or
+            // close the sections of the file that imports it.
+            int section_level = 0;
+            if (state.imported) {
+                section_level = state.document.section_level();
+                state.min_section_level = section_level;
+            }
+
             // parse the file
             quickbook::parse_file(state, include_doc_id, true);
 
+            if (state.imported) {
+                while (state.document.section_level() > section_level) {
+                    state.document.end_section();
+                }
+            }
+
             // Don't restore source_mode on older versions.
             if (keep_inner_source_mode) save.source_mode = state.source_mode;
         }
-- 
2.43.0


From 4eaa2fd3b92612cb1c4469b78e11d66dad115301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 06/49] fix: allow a file to be read as several versions of
 quickbook

---
 src/files.cpp | 5 +++++
 src/files.hpp | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/files.cpp b/src/files.cpp
index 2a1b033..c5bc3d5 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -134,6 +134,11 @@ namespace quickbook
 
             assert(inserted);
         }
+        else if (!pos->second->is_version(qbk_version)) {
+            // The file has already been read as a different version of
+            // quickbook, what was defined by it needs to keep that version.
+            return new file(filename, pos->second->source(), qbk_version);
+        }
 
         return pos->second;
     }
diff --git a/src/files.hpp b/src/files.hpp
index 4ff669d..7cf63c1 100644
--- a/src/files.hpp
+++ b/src/files.hpp
@@ -96,6 +96,8 @@ namespace quickbook
             return qbk_version;
         }
 
+        bool is_version(unsigned v) const { return qbk_version == v; }
+
         void version(unsigned v)
         {
             // Check that either version hasn't been set, or it was
-- 
2.43.0


From d0fbdad70c125952851684c84fd73f8428810cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 07/49] fix: report files that include themselves without end

---
 src/actions.cpp    | 5 +++++
 src/state.cpp      | 3 +++
 src/state.hpp      | 2 ++
 src/state_save.hpp | 1 +
 4 files changed, 11 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index 5b358aa..295b19a 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1815,6 +1815,11 @@ namespace quickbook
                     : qbk_version_n >= 106u ? state_save::scope_callables
                                             : state_save::scope_macros);
 
+            // A file that includes itself without end would use up the stack.
+            if (++state.include_depth > state.max_include_depth) {
+                throw load_error("Files are included too deeply.");
+            }
+
             state.current_file = load(path.file_path); // Throws load_error
             state.current_path = path;
             state.imported = (load_type == block_tags::import);
diff --git a/src/state.cpp b/src/state.cpp
index 04ff6a6..4fc15cf 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -60,6 +60,7 @@ namespace quickbook
         , current_path(filein_, 0, filein_.filename())
 
         , template_depth(0)
+        , include_depth(0)
         , min_section_level(1)
 
         , in_list(false)
@@ -157,6 +158,7 @@ namespace quickbook
         , source_mode(state.source_mode)
         , macro()
         , template_depth(state.template_depth)
+        , include_depth(state.include_depth)
         , min_section_level(state.min_section_level)
     {
         if (scope & scope_macros) macro = state.macro;
@@ -182,6 +184,7 @@ namespace quickbook
         if (scope & scope_templates) state.templates.pop();
         if (scope & scope_macros) state.macro = macro;
         boost::core::invoke_swap(state.template_depth, template_depth);
+        boost::core::invoke_swap(state.include_depth, include_depth);
         boost::core::invoke_swap(state.min_section_level, min_section_level);
     }
 }
diff --git a/src/state.hpp b/src/state.hpp
index 022d262..4457fb2 100644
--- a/src/state.hpp
+++ b/src/state.hpp
@@ -45,6 +45,7 @@ namespace quickbook
         typedef std::vector<std::string> string_list;
 
         static int const max_template_depth = 100;
+        static int const max_include_depth = 100;
 
         // global state
         unsigned order_pos;
@@ -73,6 +74,7 @@ namespace quickbook
 
         // state saved for templates.
         int template_depth;
+        int include_depth;
         int min_section_level;
 
         // output state - scoped by templates and grammar
diff --git a/src/state_save.hpp b/src/state_save.hpp
index 8f76bad..d6f8834 100644
--- a/src/state_save.hpp
+++ b/src/state_save.hpp
@@ -44,6 +44,7 @@ namespace quickbook
         source_mode_info source_mode;
         string_symbols macro;
         int template_depth;
+        int include_depth;
         int min_section_level;
 
       private:
-- 
2.43.0


From ac8b9748202cd37e9cda858ac1992da0619be38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 08/49] fix: stop expanding templates once an infinite loop has
 been found

---
 src/actions.cpp | 11 +++++++++++
 src/state.cpp   |  1 +
 src/state.hpp   |  1 +
 3 files changed, 13 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index 295b19a..2fea643 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1274,6 +1274,16 @@ namespace quickbook
 
         quickbook::paragraph_action paragraph_action(state);
 
+        // Once an infinite loop has been found, don't expand anything else until
+        // it has been left. A template that calls itself several times would
+        // take forever.
+        if (!state.template_depth) {
+            state.template_loop = false;
+        }
+        else if (state.template_loop) {
+            return;
+        }
+
         // Finish off any existing paragraphs.
         if (is_block) paragraph_action();
 
@@ -1307,6 +1317,7 @@ namespace quickbook
                 detail::outerr(state.current_file, first)
                     << "Infinite loop detected" << std::endl;
                 ++state.error_count;
+                state.template_loop = true;
                 return;
             }
 
diff --git a/src/state.cpp b/src/state.cpp
index 4fc15cf..fa979af 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -60,6 +60,7 @@ namespace quickbook
         , current_path(filein_, 0, filein_.filename())
 
         , template_depth(0)
+        , template_loop(false)
         , include_depth(0)
         , min_section_level(1)
 
diff --git a/src/state.hpp b/src/state.hpp
index 4457fb2..b280fc7 100644
--- a/src/state.hpp
+++ b/src/state.hpp
@@ -74,6 +74,7 @@ namespace quickbook
 
         // state saved for templates.
         int template_depth;
+        bool template_loop;
         int include_depth;
         int min_section_level;
 
-- 
2.43.0


From 0b93e002ca3320d7f7cdb7f53ab775728103de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:31 +0000
Subject: [PATCH 09/49] fix: keep the tree builder's position valid when nodes
 are extracted

---
 src/tree.cpp | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/tree.cpp b/src/tree.cpp
index 1f16b93..c7cf08a 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -142,27 +142,18 @@ namespace quickbook
 
         tree_node_base* tree_builder_base::extract(tree_node_base* x)
         {
-            if (!x->prev_) {
-                if (x->parent_) {
-                    x->parent_->children_ = x->next_;
+            // If the builder is currently adding nodes inside of, or just
+            // after, the extracted node, go back to the position before it.
+            for (tree_node_base* n = current_ ? current_ : parent_; n;
+                 n = n->parent_) {
+                if (n == x) {
+                    current_ = x->prev_;
+                    parent_ = x->parent_;
+                    break;
                 }
-                else {
-                    assert(x == root_);
-                    root_ = x->next_;
-                    parent_ = 0;
-                    current_ = root_;
-                }
-            }
-            else {
-                x->prev_->next_ = x->next_;
             }
-            if (x->next_) {
-                x->next_->prev_ = x->prev_;
-            }
-            x->parent_ = 0;
-            x->next_ = 0;
-            x->prev_ = 0;
-            return x;
+
+            return tree_base::extract(x);
         }
 
         tree_node_base* tree_builder_base::release()
-- 
2.43.0


From d723020213ad448335d556faadb438d393421bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:14 +0000
Subject: [PATCH 10/49] fix: clear also discards output that is still buffered

---
 src/collector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/collector.hpp b/src/collector.hpp
index 920b78d..811a7e0 100644
--- a/src/collector.hpp
+++ b/src/collector.hpp
@@ -35,7 +35,11 @@ namespace quickbook
 
         std::ostream& get() const { return *stream_ptr.get(); }
 
-        void clear() { buffer_ptr->clear(); }
+        void clear()
+        {
+            stream_ptr->flush();
+            buffer_ptr->clear();
+        }
 
         void swap(std::string& other)
         {
-- 
2.43.0


From 21182effd7cbf4c3b3ec20faccab407ba8f19d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:06 +0000
Subject: [PATCH 11/49] fix: position at the end of unindented text that ends
 in indentation

---
 src/files.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index c5bc3d5..1c1af7e 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -331,10 +331,12 @@ namespace quickbook
                 // The start of line content (i.e. after indentation).
                 our_line = skip_indentation(source(), our_line);
 
-                // The position is in the middle of indentation, so
-                // just return the start of the whitespace, which should
-                // be good enough.
-                if (our_line > pos) return original_line;
+                // The position is in the middle of indentation, or at the
+                // end of the file and there's nothing but indentation on
+                // its last line, so just return the start of the whitespace,
+                // which should be good enough.
+                if (our_line > pos || our_line == source().size())
+                    return original_line;
 
                 original_line =
                     skip_indentation(original->source(), original_line);
-- 
2.43.0


From f620329716e81696864406215789f4d19ca9d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:06 +0000
Subject: [PATCH 12/49] fix: positions in unindented text that started with
 blank lines

---
 src/files.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/files.cpp b/src/files.cpp
index 1c1af7e..e03f4a2 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -596,7 +596,8 @@ namespace quickbook
 
         unindented_program.append(program.begin() + copy_start, program.end());
 
-        data->new_file->add_indented_mapped_file_section(x.begin());
+        data->new_file->add_indented_mapped_file_section(
+            x.begin() + text_start);
         data->new_file->source_.append(unindented_program);
     }
 
-- 
2.43.0


From d0ea5d1323bd735423b8da2bba4929b0a52cdfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:01 +0000
Subject: [PATCH 13/49] fix: don't read before the start of the output in
 pretty printing

---
 src/post_process.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index 1ee02bc..ee47c9c 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -345,7 +345,10 @@ namespace quickbook
         void do_code(iter_type f, iter_type l) const
         {
             state.printer.trim_spaces();
-            if (state.out[state.out.size() - 1] != '\n') state.out += '\n';
+            if (!state.out.empty() &&
+                state.out[state.out.size() - 1] != '\n') {
+                state.out += '\n';
+            }
 
             // trim trailing space from after closing tag
             while (f != l && std::isspace(*(l - 1))) {
-- 
2.43.0


From 308b8b5d2c2d2312774a853db98a4e3bd26b8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:01 +0000
Subject: [PATCH 14/49] fix: don't break the line between an escaped passage
 and a tag

---
 src/post_process.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index ee47c9c..2f8077b 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -327,6 +327,7 @@ namespace quickbook
         {
             for (iter_type i = f; i != l; ++i)
                 state.out += *i;
+            if (f != l) state.printer.prev = *(l - 1);
         }
 
         void do_escape(iter_type f, iter_type l) const
@@ -340,6 +341,7 @@ namespace quickbook
             for (iter_type i = f; i != l; ++i) {
                 state.out += *i;
             }
+            if (f != l) state.printer.prev = *(l - 1);
         }
 
         void do_code(iter_type f, iter_type l) const
-- 
2.43.0


From 476d7e8a193b67f04dd10d797055da43b0332eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:31 +0000
Subject: [PATCH 15/49] fix: list the directory that wildcards were searched in
 as a dependency

---
 src/include_paths.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/include_paths.cpp b/src/include_paths.cpp
index 80cd5e3..f487387 100644
--- a/src/include_paths.cpp
+++ b/src/include_paths.cpp
@@ -196,13 +196,12 @@ namespace quickbook
             // If the path has some glob match characters
             // we do a discovery of all the matches..
             {
-                fs::path current = state.current_file->path.parent_path();
+                quickbook_path current = state.current_path.parent_path();
 
                 // Search for the current dir accumulating to the result.
-                state.dependencies.add_glob(current / parameter.value);
-                include_search_glob(
-                    result, state.current_path.parent_path(), parameter.value,
-                    state);
+                state.dependencies.add_glob(
+                    current.file_path / parameter.value);
+                include_search_glob(result, current, parameter.value, state);
 
                 // Search the include path dirs accumulating to the result.
                 unsigned count = 0;
-- 
2.43.0


From b674ecf23fb71879411a90662be68136842e8876 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:01:02 +0000
Subject: [PATCH 16/49] fix: Don't read past the end of the XML when an
 attribute's value is missing

---
 src/xml_parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index 4a043bb..65f16e4 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -275,7 +275,7 @@ namespace quickbook
             string_iterator& it, string_iterator start, string_iterator end)
         {
             read_some_of(it, end, " \t\n\r");
-            if (*it == '"' || *it == '\'') {
+            if (it != end && (*it == '"' || *it == '\'')) {
                 return read_string(it, end);
             }
             else {
-- 
2.43.0


From 189ba623fbc0bc2c9cf2ef9889bff0a341120a49 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:01:02 +0000
Subject: [PATCH 17/49] fix: Accept digits, '_' and '.' in XML names

---
 src/xml_parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index 65f16e4..1ec61fa 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -264,7 +264,8 @@ namespace quickbook
             string_iterator name_start = it;
             read_some_of(
                 it, end,
-                "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ:-");
+                "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
+                "0123456789:-_.");
             if (name_start == it) {
                 throw xml_parse_error("Invalid tag", start);
             }
-- 
2.43.0


From 1e558bae9593e0ed9fb18ca78b051b57e4786457 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:01:02 +0000
Subject: [PATCH 18/49] fix: Refuse XML with elements that are never closed

---
 src/xml_parse.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index 1ec61fa..7050615 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -7,6 +7,7 @@ http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
 
 #include "xml_parse.hpp"
+#include <vector>
 #include "simple_parse.hpp"
 #include "stream.hpp"
 #include "utils.hpp"
@@ -60,7 +61,7 @@ namespace quickbook
 
         // xml_parse
 
-        void read_tag(
+        bool read_tag(
             xml_tree_builder&,
             string_iterator& it,
             string_iterator start,
@@ -87,6 +88,7 @@ namespace quickbook
             iterator it = source.begin(), end = source.end();
 
             xml_tree_builder builder;
+            std::vector<iterator> open_tags;
 
             while (true) {
                 iterator start = it;
@@ -113,17 +115,25 @@ namespace quickbook
                     break;
                 case '/':
                     read_close_tag(builder, it, start, end);
+                    open_tags.pop_back();
                     break;
                 default:
-                    read_tag(builder, it, start, end);
+                    if (read_tag(builder, it, start, end)) {
+                        open_tags.push_back(start);
+                    }
                     break;
                 }
             }
 
+            if (!open_tags.empty()) {
+                throw xml_parse_error("Tag isn't closed", open_tags.back());
+            }
+
             return builder.release();
         }
 
-        void read_tag(
+        // Returns true if the tag opens an element that has to be closed.
+        bool read_tag(
             xml_tree_builder& builder,
             string_iterator& it,
             string_iterator start,
@@ -143,7 +153,7 @@ namespace quickbook
                 if (*it == '>') {
                     ++it;
                     builder.start_children();
-                    break;
+                    return true;
                 }
                 if (*it == '/') {
                     ++it;
@@ -152,7 +162,7 @@ namespace quickbook
                         throw xml_parse_error("Invalid tag", start);
                     }
                     ++it;
-                    break;
+                    return false;
                 }
                 quickbook::string_view attribute_name =
                     read_tag_name(it, start, end);
-- 
2.43.0


From 4aa3ee8fd246cf52c448c0266fae6fb37ab91d86 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:01:02 +0000
Subject: [PATCH 19/49] fix: Keep the text of CDATA sections when reading XML

---
 src/xml_parse.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index 7050615..1eee4ba 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -73,8 +73,11 @@ namespace quickbook
             string_iterator end);
         void skip_question_mark_tag(
             string_iterator& it, string_iterator start, string_iterator end);
-        void skip_exclamation_mark_tag(
-            string_iterator& it, string_iterator start, string_iterator end);
+        void read_exclamation_mark_tag(
+            xml_tree_builder&,
+            string_iterator& it,
+            string_iterator start,
+            string_iterator end);
         quickbook::string_view read_tag_name(
             string_iterator& it, string_iterator start, string_iterator end);
         quickbook::string_view read_attribute_value(
@@ -111,7 +114,7 @@ namespace quickbook
                     skip_question_mark_tag(it, start, end);
                     break;
                 case '!':
-                    skip_exclamation_mark_tag(it, start, end);
+                    read_exclamation_mark_tag(builder, it, start, end);
                     break;
                 case '/':
                     read_close_tag(builder, it, start, end);
@@ -233,8 +236,11 @@ namespace quickbook
             }
         }
 
-        void skip_exclamation_mark_tag(
-            string_iterator& it, string_iterator start, string_iterator end)
+        void read_exclamation_mark_tag(
+            xml_tree_builder& builder,
+            string_iterator& it,
+            string_iterator start,
+            string_iterator end)
         {
             assert(it == start + 1 && it != end && *it == '!');
             ++it;
@@ -248,6 +254,19 @@ namespace quickbook
                 }
             }
 
+            if (read(it, end, "[CDATA[")) {
+                string_iterator text_start = it;
+                if (!read_past(it, end, "]]>")) {
+                    throw xml_parse_error("Invalid CDATA section", start);
+                }
+                if (it - text_start > 3) {
+                    builder.add_element(xml_element::text_node(encode_string(
+                        quickbook::string_view(
+                            text_start, it - text_start - 3))));
+                }
+                return;
+            }
+
             while (true) {
                 read_to_one_of(it, end, "\"'<>");
                 if (it == end) {
-- 
2.43.0


From 638c8f6c9f5ee8ec1f1f5da2fbbe42bf05eec009 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 20/49] fix: don't abort when the html directory doesn't exist
 yet

---
 src/quickbook.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index cc8fe0d..1bfab9b 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -702,7 +702,11 @@ int main(int argc, char* argv[])
                 // should be in filein's directory.
                 // If output_path was explicitly specified, then it's already
                 // been checked.
-                assert(error_count || fs::is_directory(options.xinclude_base));
+                // The directory for chunked output might not exist yet.
+                assert(
+                    error_count ||
+                    options.style == parse_document_options::output_chunked ||
+                    fs::is_directory(options.xinclude_base));
             }
 
             if (vm.count("image-location")) {
-- 
2.43.0


From 8442af67bdd1e40a321d514b5686274961a5d8df Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 21/49] fix: accept --output-dir for chunked html

---
 src/quickbook.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 1bfab9b..30f7847 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -617,12 +617,14 @@ int main(int argc, char* argv[])
                         quickbook::detail::command_line_to_path(
                             vm["output-dir"].as<command_line_string>());
 
-                    if (!fs::is_directory(options.output_path.parent_path())) {
+                    fs::path parent = options.output_path.parent_path();
+                    if (!parent.empty() && !fs::is_directory(parent)) {
                         quickbook::detail::outerr()
                             << "parent directory not found for output directory"
                             << std::endl;
                         ++error_count;
                     }
+                    break;
                 }
                 case quickbook::parse_document_options::output_file:
                     quickbook::detail::outerr()
-- 
2.43.0


From a73c692eba5827612d5bfb129bbd5d50a73a6889 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 22/49] fix: report an error when the last of the output can't
 be written

---
 src/bb2html.cpp            | 1 +
 src/dependency_tracker.cpp | 3 ++-
 src/quickbook.cpp          | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 44c8e75..ceb00bb 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -724,6 +724,7 @@ namespace quickbook
             }
 
             fileout << html;
+            fileout.close();
 
             if (fileout.fail()) {
                 ::quickbook::detail::outerr(path)
diff --git a/src/dependency_tracker.cpp b/src/dependency_tracker.cpp
index 5f50352..7c6b621 100644
--- a/src/dependency_tracker.cpp
+++ b/src/dependency_tracker.cpp
@@ -91,8 +91,9 @@ namespace quickbook
                 quickbook::detail::path_to_generic(file_out));
         }
 
-        out.exceptions(std::ios::badbit);
+        out.exceptions(std::ios::badbit | std::ios::failbit);
         write_dependencies(out, f);
+        out.close();
     }
 
     void dependency_tracker::write_dependencies(std::ostream& out, flags f)
diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 30f7847..9c19429 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -240,6 +240,7 @@ namespace quickbook
                 }
 
                 fileout << stage2;
+                fileout.close();
 
                 if (fileout.fail()) {
                     ::quickbook::detail::outerr()
-- 
2.43.0


From 363127517112b46d960cc2800fa5e806650555e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 23/49] fix: escape non-ASCII characters in URLs by their value

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3a6b058..49c4577 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -195,8 +195,8 @@ namespace quickbook
                      !(n + 2 < uri_param.size() &&
                        std::strchr(hex, uri_param[n + 1]) &&
                        std::strchr(hex, uri_param[n + 2])))) {
-                    char escape[] = {'%', hex[uri_param[n] / 16],
-                                     hex[uri_param[n] % 16], '\0'};
+                    unsigned char c = static_cast<unsigned char>(uri_param[n]);
+                    char escape[] = {'%', hex[c / 16], hex[c % 16], '\0'};
                     uri += escape;
                 }
                 else {
-- 
2.43.0


From e76693cfd8d0814f1f2bcbbfb36e5827f081a258 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 24/49] fix: don't make absolute links relative to pages in
 subdirectories

---
 src/bb2html.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index ceb00bb..42f4e25 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -86,6 +86,7 @@ namespace quickbook
             html_state&, std::string const& path, std::string const& content);
         std::string get_link_from_path(
             html_gen&, quickbook::string_view, quickbook::string_view);
+        bool has_url_scheme(quickbook::string_view);
         std::string relative_path_or_url(html_gen&, path_or_url const&);
         std::string relative_path_from_fs_paths(
             fs::path const&, fs::path const&);
@@ -760,9 +761,27 @@ namespace quickbook
                 }
             }
 
+            // Links to other sites, to the root of this one, and within the
+            // page don't depend on where the page is.
+            if (boost::starts_with(link, "/") ||
+                boost::starts_with(link, "#") || has_url_scheme(link)) {
+                return link.to_s();
+            }
+
             return relative_path_from_url_paths(link, path);
         }
 
+        bool has_url_scheme(quickbook::string_view link)
+        {
+            string_iterator it = link.begin();
+            while (it != link.end() &&
+                   (std::isalnum(static_cast<unsigned char>(*it)) ||
+                    *it == '+' || *it == '-' || *it == '.')) {
+                ++it;
+            }
+            return it != link.begin() && it != link.end() && *it == ':';
+        }
+
         std::string relative_path_or_url(html_gen& gen, path_or_url const& x)
         {
             assert(x);
-- 
2.43.0


From 56b3b4eb97c8e5ac80b0bbf12f16856a5bcae755 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 25/49] fix: link from the last page of a part to the next part

---
 src/bb2html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 42f4e25..86d701a 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -356,8 +356,8 @@ namespace quickbook
                     break;
                 }
             }
-            if (!next) {
-                next = x->next();
+            for (chunk* it = x; it && !next; it = it->parent()) {
+                next = it->next();
             }
 
             chunk* prev = x->prev();
-- 
2.43.0


From d78dd1b47ff693b8d9653ece9445a37f154bd54f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 26/49] fix: don't repeat footnotes from titles in tables of
 contents

---
 src/bb2html.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 86d701a..33046cd 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1400,6 +1400,12 @@ namespace quickbook
 
         NODE_RULE(footnote, gen, x)
         {
+            // The footnote is only written for the title itself, not for its
+            // entry in a table of contents.
+            if (gen.in_toc) {
+                return;
+            }
+
             // TODO: Better id generation....
             static int footnote_number = 0;
             ++footnote_number;
-- 
2.43.0


From 25405dddc49f6db1805d5e6b542461a50ac46be9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 27/49] fix: footnotes in footnotes

---
 src/bb2html.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 33046cd..0d00a1e 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -531,17 +531,17 @@ namespace quickbook
                 tag_end(gen.printer);
                 gen.printer.html += "<br/>";
                 gen.printer.html += "<hr/>";
-                for (std::vector<xml_element*>::iterator it =
-                         gen.chunk.footnotes.begin();
-                     it != gen.chunk.footnotes.end(); ++it) {
+                // Generating a footnote can add the footnotes it contains.
+                for (std::size_t i = 0; i < gen.chunk.footnotes.size(); ++i) {
+                    xml_element* footnote = gen.chunk.footnotes[i];
                     auto footnote_id =
-                        (*it)->get_attribute("(((footnote-id)))");
+                        footnote->get_attribute("(((footnote-id)))");
                     tag_start(gen.printer, "div");
                     tag_attribute(gen.printer, "id", footnote_id);
                     tag_attribute(gen.printer, "class", "footnote");
                     tag_end(gen.printer);
 
-                    generate_children_html(gen, *it);
+                    generate_children_html(gen, footnote);
                     close_tag(gen.printer, "div");
                 }
                 close_tag(gen.printer, "div");
-- 
2.43.0


From 3ae045219ffaa738810c0e75bae80c7d04180047 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 28/49] fix: escape '?' and '\' in URLs for file names

---
 src/path.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/path.cpp b/src/path.cpp
index 1a7582c..3fba96f 100644
--- a/src/path.cpp
+++ b/src/path.cpp
@@ -114,6 +114,22 @@ namespace quickbook
         return result;
     }
 
+    // escape_uri leaves '?' and '\\' alone, as they're used in URLs. In a file
+    // name they're ordinary characters.
+    std::string escape_file_name(fs::path const& x)
+    {
+        std::string result;
+        for (char c : detail::escape_uri(detail::path_to_generic(x))) {
+            if (c == '?')
+                result += "%3f";
+            else if (c == '\\')
+                result += "%5c";
+            else
+                result += c;
+        }
+        return result;
+    }
+
     // Convert a Boost.Filesystem path to a URL.
     //
     // I'm really not sure about this, as the meaning of root_name and
@@ -202,7 +218,7 @@ namespace quickbook
                 if (sep) {
                     result += "/";
                 }
-                result += detail::escape_uri(detail::path_to_generic(*it));
+                result += escape_file_name(*it);
                 sep = true;
             }
         }
-- 
2.43.0


From 72d3b02ebe6aa06cfc9cb64daa9fe8f10f733e4b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:27:23 +0000
Subject: [PATCH 29/49] fix: URLs of stylesheets, navigation images and boost
 links in HTML

Escape file names, and keep the directory of a graphics URL.
---
 src/bb2html.cpp   | 40 ++++++++++++++++++++++++++--------------
 src/quickbook.cpp |  2 +-
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 0d00a1e..1c8fd31 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -88,6 +88,7 @@ namespace quickbook
             html_gen&, quickbook::string_view, quickbook::string_view);
         bool has_url_scheme(quickbook::string_view);
         std::string relative_path_or_url(html_gen&, path_or_url const&);
+        fs::path page_path(html_gen&);
         std::string relative_path_from_fs_paths(
             fs::path const&, fs::path const&);
         std::string relative_path_from_url_paths(
@@ -383,7 +384,7 @@ namespace quickbook
                         get_link_from_path(gen, prev->path_, x->path_));
                     tag_attribute(gen.printer, "accesskey", "p");
                     tag_end(gen.printer);
-                    graphics_tag(gen, "/prev.png", "prev");
+                    graphics_tag(gen, "prev.png", "prev");
                     close_tag(gen.printer, "a");
                     gen.printer.html += " ";
                 }
@@ -394,7 +395,7 @@ namespace quickbook
                         get_link_from_path(gen, x->parent()->path_, x->path_));
                     tag_attribute(gen.printer, "accesskey", "u");
                     tag_end(gen.printer);
-                    graphics_tag(gen, "/up.png", "up");
+                    graphics_tag(gen, "up.png", "up");
                     close_tag(gen.printer, "a");
                     gen.printer.html += " ";
 
@@ -404,7 +405,7 @@ namespace quickbook
                         get_link_from_path(gen, "index.html", x->path_));
                     tag_attribute(gen.printer, "accesskey", "h");
                     tag_end(gen.printer);
-                    graphics_tag(gen, "/home.png", "home");
+                    graphics_tag(gen, "home.png", "home");
                     close_tag(gen.printer, "a");
                     if (next) {
                         gen.printer.html += " ";
@@ -417,7 +418,7 @@ namespace quickbook
                         get_link_from_path(gen, next->path_, x->path_));
                     tag_attribute(gen.printer, "accesskey", "n");
                     tag_end(gen.printer);
-                    graphics_tag(gen, "/next.png", "next");
+                    graphics_tag(gen, "next.png", "next");
                     close_tag(gen.printer, "a");
                 }
                 close_tag(gen.printer, "div");
@@ -744,20 +745,27 @@ namespace quickbook
                 // TODO: Parameterize the boost location, so that it can use
                 // relative paths.
                 string_iterator it = link.begin() + strlen("boost:");
-                if (*it == '/') {
+                if (it != link.end() && *it == '/') {
                     ++it;
                 }
+                string_view boost_link(it, link.end() - it);
                 if (!gen.state.options.boost_root_path) {
                     std::string result =
                         "http://www.boost.org/doc/libs/release/";
-                    result.append(it, link.end());
+                    result.append(boost_link.begin(), boost_link.end());
                     return result;
                 }
+                else if (gen.state.options.boost_root_path.is_url()) {
+                    return (gen.state.options.boost_root_path / boost_link)
+                        .get_url();
+                }
                 else {
-                    return relative_path_or_url(
-                        gen,
-                        gen.state.options.boost_root_path /
-                            string_view(it, link.end() - it));
+                    // The link is already a URL, but the path isn't.
+                    std::string result = dir_path_to_url(path_difference(
+                        page_path(gen).parent_path(),
+                        gen.state.options.boost_root_path.get_path()));
+                    result.append(boost_link.begin(), boost_link.end());
+                    return result;
                 }
             }
 
@@ -790,17 +798,21 @@ namespace quickbook
             }
             else {
                 return relative_path_from_fs_paths(
-                    x.get_path(),
-                    gen.state.options.home_path.parent_path() /
-                        gen.path.to_s());
+                    x.get_path(), page_path(gen));
             }
         }
 
+        fs::path page_path(html_gen& gen)
+        {
+            return gen.state.options.home_path.parent_path() /
+                   gen.path.to_s();
+        }
+
         // Note: assume that base is a file, not a directory.
         std::string relative_path_from_fs_paths(
             fs::path const& p, fs::path const& base)
         {
-            return path_to_generic(path_difference(base.parent_path(), p));
+            return file_path_to_url(path_difference(base.parent_path(), p));
         }
 
         std::string relative_path_from_url_paths(
diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 9c19429..a4e940c 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -575,7 +575,7 @@ int main(int argc, char* argv[])
             }
             else if (options.html_ops.boost_root_path) {
                 options.html_ops.graphics_path =
-                    options.html_ops.boost_root_path / "doc/src/images";
+                    options.html_ops.boost_root_path / "doc/src/images/";
             }
 
             if (vm.count("output-file")) {
-- 
2.43.0


From d2f083094d696fa8ebda5754f6b3baf1813f17c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:27:23 +0000
Subject: [PATCH 30/49] fix: exit status when there are a multiple of 256
 errors

---
 src/quickbook.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index a4e940c..e7c4bd8 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -762,7 +762,8 @@ int main(int argc, char* argv[])
                 return !error_count;
             }
             else {
-                return error_count;
+                // Not the count itself, as only its low byte would be seen.
+                return error_count ? 1 : 0;
             }
         }
         else {
-- 
2.43.0


From 2b7ac53515f769158d0066d41c719bcbc504533a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:27:55 +0000
Subject: [PATCH 31/49] fix: implement --no-output

---
 src/quickbook.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index e7c4bd8..8f1eac8 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -448,6 +448,12 @@ int main(int argc, char* argv[])
             }
         }
 
+        // An explicit output overrides no-output.
+        if (vm.count("no-output") && !vm.count("output-file") &&
+            !vm.count("output-dir")) {
+            options.style = quickbook::parse_document_options::output_none;
+        }
+
         quickbook::self_linked_headers =
             options.format != parse_document_options::html &&
             !vm.count("no-self-linked-headers");
@@ -670,6 +676,8 @@ int main(int argc, char* argv[])
                         }
                         options.output_path = path;
                         break;
+                    case quickbook::parse_document_options::output_none:
+                        break;
                     default:
                         assert(false);
                         options.style =
-- 
2.43.0


From b3a156fc24481ffac68ee5908ce05803abc24645 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:46:46 +0000
Subject: [PATCH 32/49] fix: crash for callouts in footnotes in HTML

---
 src/bb2html.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 1c8fd31..0663c0a 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -440,8 +440,6 @@ namespace quickbook
 
         void generate_chunk_body(html_gen& gen, chunk* x)
         {
-            gen.chunk.callout_numbers.clear();
-
             number_callouts(gen, x->title_.root());
             number_callouts(gen, x->info_.root());
             number_callouts(gen, x->contents_.root());
@@ -1343,12 +1341,15 @@ namespace quickbook
             boost::unordered_map<string_view, callout_data>::const_iterator
                 data = gen.chunk.callout_numbers.end();
             auto link = gen.state.ids.end();
+            unsigned number = 0;
             if (x->has_attribute("id")) {
                 data = gen.chunk.callout_numbers.find(x->get_attribute("id"));
             }
-            if (data != gen.chunk.callout_numbers.end() &&
-                !data->second.link_id.empty()) {
-                link = gen.state.ids.find(data->second.link_id);
+            if (data != gen.chunk.callout_numbers.end()) {
+                number = data->second.number;
+                if (!data->second.link_id.empty()) {
+                    link = gen.state.ids.find(data->second.link_id);
+                }
             }
 
             open_tag_with_id(gen, "div", x);
@@ -1361,11 +1362,9 @@ namespace quickbook
             }
             graphics_tag(
                 gen,
-                "/callouts/" +
-                    boost::lexical_cast<std::string>(data->second.number) +
+                "/callouts/" + boost::lexical_cast<std::string>(number) +
                     ".png",
-                "(" + boost::lexical_cast<std::string>(data->second.number) +
-                    ")");
+                "(" + boost::lexical_cast<std::string>(number) + ")");
             if (link != gen.state.ids.end()) {
                 close_tag(gen.printer, "a");
             }
-- 
2.43.0


From a522da707f1aa27e92b1c8fa9a0f3919a264f817 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:46:46 +0000
Subject: [PATCH 33/49] fix: links to the directory of a page in HTML

---
 src/bb2html.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 0663c0a..9fb9aec 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -851,7 +851,8 @@ namespace quickbook
                 result += "../";
             }
             result.append(path_diff_start, path.end());
-            return result;
+            // An empty link would lead to this page.
+            return result.empty() ? std::string("./") : result;
         }
 
         // get_id_paths
-- 
2.43.0


From 7aa8ad79201c647b2f8e16a45a7f236393ac0a36 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:46:46 +0000
Subject: [PATCH 34/49] fix: number of footnotes that don't begin with text or
 a paragraph

---
 src/bb2html.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 9fb9aec..0e0b781 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1469,16 +1469,14 @@ namespace quickbook
             if (!pos) {
                 x->add_first_child(builder.release());
             }
-            else
-                switch (pos->type_) {
-                case xml_element::element_node:
-                    // TODO: Check type of node? Recurse?
-                    pos->add_first_child(builder.release());
-                    break;
-                default:
-                    pos->add_before(builder.release());
-                    break;
-                }
+            else if (
+                pos->type_ == xml_element::element_node &&
+                (pos->name_ == "para" || pos->name_ == "simpara")) {
+                pos->add_first_child(builder.release());
+            }
+            else {
+                pos->add_before(builder.release());
+            }
 
             gen.chunk.footnotes.push_back(x);
         }
-- 
2.43.0


From 12156465119a7ecbea62ee6dafda042ca4d425d1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:47:36 +0000
Subject: [PATCH 35/49] fix: don't write two pages to the same HTML file

---
 src/bb2html.cpp           |  1 +
 src/boostbook_chunker.cpp | 53 ++++++++++++++++++++++++++++++++++++---
 src/boostbook_chunker.hpp |  2 ++
 3 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 0e0b781..f08ea23 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -244,6 +244,7 @@ namespace quickbook
                 path_to_generic(options.home_path.filename());
             if (options.chunked_output) {
                 inline_sections(chunked.root(), 0);
+                make_paths_unique(chunked.root());
 
                 // Create the root directory if necessary for chunked
                 // documentation.
diff --git a/src/boostbook_chunker.cpp b/src/boostbook_chunker.cpp
index ec822d9..819c483 100644
--- a/src/boostbook_chunker.cpp
+++ b/src/boostbook_chunker.cpp
@@ -46,15 +46,29 @@ namespace quickbook
         struct chunk_builder : tree_builder<chunk>
         {
             int count;
+            boost::unordered_set<std::string> ids;
 
             chunk_builder() : count(0) {}
 
+            void gather_ids(xml_element* x)
+            {
+                if (x->has_attribute("id")) {
+                    ids.insert(x->get_attribute("id").to_s());
+                }
+                for (xml_element* it = x->children(); it; it = it->next()) {
+                    gather_ids(it);
+                }
+            }
+
             std::string next_path_name()
             {
-                ++count;
-                std::string result = "page-";
-                result += boost::lexical_cast<std::string>(count);
-                ++count;
+                std::string result;
+                do {
+                    ++count;
+                    result = "page-";
+                    result += boost::lexical_cast<std::string>(count);
+                    ++count;
+                } while (!ids.insert(result).second);
                 return result;
             }
         };
@@ -67,6 +81,9 @@ namespace quickbook
         chunk_tree chunk_document(xml_tree& tree)
         {
             chunk_builder builder;
+            for (xml_element* it = tree.root(); it; it = it->next()) {
+                builder.gather_ids(it);
+            }
             for (xml_element* it = tree.root(); it;) {
                 xml_element* next = it->next();
                 chunk_nodes(builder, tree, it);
@@ -112,6 +129,34 @@ namespace quickbook
             }
         }
 
+        void make_paths_unique(
+            chunk* c, boost::unordered_set<std::string>& paths)
+        {
+            if (c->inline_) {
+                c->path_ = c->parent()->path_;
+            }
+            else {
+                std::string const base = c->path_;
+                std::size_t const name_end = base.rfind('.');
+                for (int count = 1; !paths.insert(c->path_).second; ++count) {
+                    c->path_ = base;
+                    c->path_.insert(
+                        name_end,
+                        "-" + boost::lexical_cast<std::string>(count));
+                }
+            }
+
+            for (chunk* it = c->children(); it; it = it->next()) {
+                make_paths_unique(it, paths);
+            }
+        }
+
+        void make_paths_unique(chunk* c)
+        {
+            boost::unordered_set<std::string> paths;
+            make_paths_unique(c, paths);
+        }
+
         void chunk_nodes(
             chunk_builder& builder, xml_tree& tree, xml_element* node)
         {
diff --git a/src/boostbook_chunker.hpp b/src/boostbook_chunker.hpp
index b9a2d1f..92eb4e2 100644
--- a/src/boostbook_chunker.hpp
+++ b/src/boostbook_chunker.hpp
@@ -35,6 +35,8 @@ namespace quickbook
         chunk_tree chunk_document(xml_tree&);
         void inline_sections(chunk*, int depth);
         void inline_all(chunk*);
+        // Make sure that no two pages are written to the same file.
+        void make_paths_unique(chunk*);
     }
 }
 
-- 
2.43.0


From 7d3a3e4914c4380e36073fcfa9be7a82babaff8d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:17:36 +0000
Subject: [PATCH 36/49] fix: numbers of callouts after a callout that contains
 callouts

---
 src/bb2html.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index f08ea23..cf9817b 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -579,6 +579,11 @@ namespace quickbook
             html_gen& gen, unsigned& count, xml_element* x)
         {
             for (xml_element* it = x->children(); it; it = it->next()) {
+                if (it->type_ == xml_element::element_node &&
+                    it->name_ == "calloutlist") {
+                    // Has its own numbers.
+                    continue;
+                }
                 if (it->type_ == xml_element::element_node &&
                     it->name_ == "callout") {
                     if (it->has_attribute("id")) {
-- 
2.43.0


From 0b760f19d3214de8cbd94ffdfd17768d23d96c75 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:29:06 +0000
Subject: [PATCH 37/49] fix: graphics and boost URLs without a slash at the end

---
 src/bb2html.cpp |  4 ++--
 src/path.cpp    | 13 +++----------
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index cf9817b..f7f467b 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1369,7 +1369,7 @@ namespace quickbook
             }
             graphics_tag(
                 gen,
-                "/callouts/" + boost::lexical_cast<std::string>(number) +
+                "callouts/" + boost::lexical_cast<std::string>(number) +
                     ".png",
                 "(" + boost::lexical_cast<std::string>(number) + ")");
             if (link != gen.state.ids.end()) {
@@ -1401,7 +1401,7 @@ namespace quickbook
             if (data != gen.chunk.callout_numbers.end()) {
                 graphics_tag(
                     gen,
-                    "/callouts/" +
+                    "callouts/" +
                         boost::lexical_cast<std::string>(data->second.number) +
                         ".png",
                     "(" +
diff --git a/src/path.cpp b/src/path.cpp
index 3fba96f..0891f8d 100644
--- a/src/path.cpp
+++ b/src/path.cpp
@@ -456,17 +456,10 @@ namespace quickbook
                 r.path_ = path_ / x.to_s();
                 break;
             case path_or_url_url: {
+                // The URL is the URL of a directory.
                 r.url_ = url_;
-                auto pos = r.url_.rfind('/');
-                if (pos == std::string::npos) {
-                    pos = r.url_.rfind(':');
-                }
-                if (pos != std::string::npos) {
-                    r.url_.resize(pos + 1);
-                }
-                else {
-                    // Error? Empty string?
-                    r.url_ = "/";
+                if (r.url_.empty() || *r.url_.rbegin() != '/') {
+                    r.url_ += '/';
                 }
                 r.url_ += x;
                 break;
-- 
2.43.0


From f714ae72fd72c8370b47a3b5f9fda315eeb5c7b6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:52:39 +0000
Subject: [PATCH 38/49] fix: end marks of snippets inside lines

---
 src/code_snippet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index e2fd137..70eab52 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -269,7 +269,7 @@ namespace quickbook
                         >>  *cl::blank_p
                         >>  cl::eps_p(cl::eol_p)
                     |
-                            "/*[*/"
+                            "/*]*/"
                     ;
 
                 ignore
-- 
2.43.0


From 1ee1057ab5a575bd0827d1bc61db3553681277e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:52:39 +0000
Subject: [PATCH 39/49] fix: ignored code at the end of a file

---
 src/code_snippet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index 70eab52..364b893 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -279,7 +279,7 @@ namespace quickbook
                             "//->"
                         )
                     >>  *cl::blank_p
-                    >>  cl::eol_p
+                    >>  (cl::eol_p | cl::end_p)
                     |   cl::confix_p(
                             "/*<-*/",
                             *cl::anychar_p,
-- 
2.43.0


From 064d08c0da36c0241d1772eee037c9899a89f0ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:52:39 +0000
Subject: [PATCH 40/49] fix: comments after a snippet were treated as code

---
 src/code_snippet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index 364b893..a5c923b 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -519,6 +519,11 @@ namespace quickbook
             f.add_at_pos("\n```\n\n", position);
         }
 
+        // What follows the outermost snippet doesn't continue its code.
+        if (!snippet_stack) {
+            in_code = false;
+        }
+
         std::vector<std::string> params;
 
         file_ptr body = f.release();
-- 
2.43.0


From d2b689546ef7f1785b79277bf03570b26c769fe9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:07:28 +0000
Subject: [PATCH 41/49] fix: comments and callouts directly after operators in
 code

---
 src/syntax_highlight.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/syntax_highlight.cpp b/src/syntax_highlight.cpp
index f6a6d3e..e5cdfa7 100644
--- a/src/syntax_highlight.cpp
+++ b/src/syntax_highlight.cpp
@@ -323,8 +323,11 @@ namespace quickbook
                     =   keywords.cpp >> (cl::eps_p - (cl::alnum_p | '_'))
                     ;   // make sure we recognize whole words only
 
+                // Comments and callouts can directly follow other characters.
                 special
-                    =   +cl::chset_p("~!%^&*()+={[}]:;,<.>?/|\\#-")
+                    =   +(  cl::chset_p("~!%^&*()+={[}]:;,<.>?/|\\#-")
+                        -   (cl::str_p("//") | "/*")
+                        )
                     ;
 
                 string_char = ('\\' >> u8_codepoint_p) | (cl::anychar_p - '\\');
-- 
2.43.0


From 41e8d0c25dc8d04e46aff43ec9ec1c47e311b9fc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:17:02 +0000
Subject: [PATCH 42/49] fix: blocks in escapes in code were lost, but not their
 callouts

---
 src/syntax_highlight.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/syntax_highlight.cpp b/src/syntax_highlight.cpp
index e5cdfa7..1ba8379 100644
--- a/src/syntax_highlight.cpp
+++ b/src/syntax_highlight.cpp
@@ -117,7 +117,15 @@ namespace quickbook
         parse_iterator, parse_iterator)
     {
         std::string tmp;
-        state.phrase.swap(tmp);
+        if (!state.out.str().empty()) {
+            // a template with blocks
+            paragraph_action para(state);
+            para();
+            state.out.swap(tmp);
+        }
+        else {
+            state.phrase.swap(tmp);
+        }
         state.pop_output(); // restore the stream
         state.phrase << tmp;
     }
-- 
2.43.0


From 6217623f98db19bfd407267c528788ee7dba35af Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:30:49 +0000
Subject: [PATCH 43/49] fix: unicode escapes in attribute values were encoded
 twice

---
 src/actions.cpp      | 13 +++++++++++++
 src/actions.hpp      | 15 +++++++++++++++
 src/main_grammar.cpp |  5 +++--
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index 2fea643..fc5e8ea 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -861,6 +861,19 @@ namespace quickbook
         }
     }
 
+    void raw_escape_unicode_action::operator()(
+        parse_iterator first, parse_iterator last) const
+    {
+        while (first != last && *first == '0')
+            ++first;
+
+        // Just ignore \u0000
+        if (first == last) return;
+
+        state.phrase << detail::decode_string(
+            "&#x" + std::string(first, last) + ";");
+    }
+
     void write_plain_text(std::ostream& out, value const& v)
     {
         if (v.is_encoded()) {
diff --git a/src/actions.hpp b/src/actions.hpp
index 7039094..eb20922 100644
--- a/src/actions.hpp
+++ b/src/actions.hpp
@@ -239,6 +239,21 @@ namespace quickbook
         quickbook::state& state;
     };
 
+    struct raw_escape_unicode_action
+    {
+        // As escape_unicode_action, for text which isn't encoded yet, such as
+        // attribute values.
+
+        explicit raw_escape_unicode_action(quickbook::state& state_)
+            : state(state_)
+        {
+        }
+
+        void operator()(parse_iterator first, parse_iterator last) const;
+
+        quickbook::state& state;
+    };
+
     struct break_action
     {
         explicit break_action(quickbook::state& state_) : state(state_) {}
diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 6d9368f..bbf5a0e 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -331,6 +331,7 @@ namespace quickbook
         raw_char_action raw_char(state);
         plain_char_action plain_char(state);
         escape_unicode_action escape_unicode(state);
+        raw_escape_unicode_action raw_escape_unicode(state);
 
         simple_phrase_action simple_markup(state);
 
@@ -974,9 +975,9 @@ namespace quickbook
             |   cl::str_p("\\ ")                // ignore an escaped space
             |   '\\' >> cl::punct_p             [raw_char]
             |   "\\u" >> cl::repeat_p(4) [cl::chset<>("0-9a-fA-F")]
-                                                [escape_unicode]
+                                                [raw_escape_unicode]
             |   "\\U" >> cl::repeat_p(8) [cl::chset<>("0-9a-fA-F")]
-                                                [escape_unicode]
+                                                [raw_escape_unicode]
             |   ('\\' >> cl::anychar_p)         [error("Invalid escape.")]
                                                 [raw_char]
             |   ("'''" >> !eol)                 [error("Boostbook escape invalid here.")]
-- 
2.43.0


From 70795edd9cccbb03794f53be77d274dc5c0451fb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:30:49 +0000
Subject: [PATCH 44/49] fix: ids with special characters were written without
 encoding them

---
 src/id_generation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/id_generation.cpp b/src/id_generation.cpp
index 15c5e39..40d9602 100644
--- a/src/id_generation.cpp
+++ b/src/id_generation.cpp
@@ -13,6 +13,7 @@
 #include <boost/unordered_map.hpp>
 #include "document_state_impl.hpp"
 #include "for.hpp"
+#include "utils.hpp"
 
 namespace quickbook
 {
@@ -302,11 +303,10 @@ namespace quickbook
         void id_value(quickbook::string_view value)
         {
             if (id_placeholder const* p = state.get_placeholder(value)) {
-                quickbook::string_view id =
-                    ids ? (*ids)[p->index] : p->unresolved_id;
-
                 result.append(source_pos, value.begin());
-                result.append(id.begin(), id.end());
+                result.append(
+                    ids ? detail::encode_string((*ids)[p->index])
+                        : p->unresolved_id);
                 source_pos = value.end();
             }
         }
-- 
2.43.0


From 4b3c37ca057f098ba47082c3ab4c0c419b8e6770 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:32:14 +0000
Subject: [PATCH 45/49] fix: unicode escapes of characters that XML can't
 contain were accepted

---
 src/actions.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index fc5e8ea..f22188e 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -10,6 +10,7 @@
 =============================================================================*/
 #include "actions.hpp"
 #include <functional>
+#include <cstdlib>
 #include <map>
 #include <numeric>
 #include <set>
@@ -837,11 +838,33 @@ namespace quickbook
             detail::print_char(*first++, state.phrase.get());
     }
 
+    // Not every number stands for a character that can be in an XML file.
+    static bool check_unicode_escape(
+        quickbook::state& state, parse_iterator first, parse_iterator last)
+    {
+        unsigned long c =
+            std::strtoul(std::string(first, last).c_str(), 0, 16);
+
+        if (c == 0 || c == 0x9 || c == 0xa || c == 0xd ||
+            (c >= 0x20 && c <= 0xd7ff) || (c >= 0xe000 && c <= 0xfffd) ||
+            (c >= 0x10000 && c <= 0x10ffff)) {
+            return true;
+        }
+
+        detail::outerr(state.current_file, first.base())
+            << "Invalid unicode escape: " << std::string(first, last)
+            << std::endl;
+        ++state.error_count;
+        return false;
+    }
+
     void escape_unicode_action::operator()(
         parse_iterator first, parse_iterator last) const
     {
         write_anchors(state, state.phrase);
 
+        if (!check_unicode_escape(state, first, last)) return;
+
         while (first != last && *first == '0')
             ++first;
 
@@ -864,6 +887,8 @@ namespace quickbook
     void raw_escape_unicode_action::operator()(
         parse_iterator first, parse_iterator last) const
     {
+        if (!check_unicode_escape(state, first, last)) return;
+
         while (first != last && *first == '0')
             ++first;
 
-- 
2.43.0


From e185a3ce1b0f1e65e77a3bfe91c0e3c5c63e1579 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:37:27 +0000
Subject: [PATCH 46/49] fix: sections in nested blocks could be left open

A section opened in a list item or in a nested block and not closed in
it (or the other way round) resulted in mismatched tags.
---
 src/actions.cpp        | 27 +++++++++++++++++++++++++++
 src/document_state.cpp |  4 +++-
 src/main_grammar.cpp   |  4 ++++
 src/state.hpp          |  5 +++++
 4 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index f22188e..d68d326 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -595,6 +595,7 @@ namespace quickbook
     {
         out << "<listitem>";
         write_anchors(*this, phrase);
+        start_nested_sections();
     }
 
     void state::end_list_item()
@@ -602,9 +603,33 @@ namespace quickbook
         write_anchors(*this, phrase);
         paragraph_action para(*this);
         para();
+        end_nested_sections();
         out << "</listitem>";
     }
 
+    void state::start_nested_sections()
+    {
+        min_section_level_save.push(min_section_level);
+        min_section_level = document.section_level();
+    }
+
+    void state::end_nested_sections()
+    {
+        if (document.section_level() > min_section_level) {
+            detail::outerr(current_file->path)
+                << "Missing [endsect] detected at end of nested block."
+                << std::endl;
+            ++error_count;
+
+            while (document.section_level() > min_section_level) {
+                document.end_section();
+            }
+        }
+
+        min_section_level = min_section_level_save.top();
+        min_section_level_save.pop();
+    }
+
     namespace
     {
         bool parse_template(
@@ -2007,6 +2032,7 @@ namespace quickbook
     {
         state.push_output();
         state.anchors.swap(saved_anchors);
+        state.start_nested_sections();
         tag = t;
 
         return true;
@@ -2034,6 +2060,7 @@ namespace quickbook
 
     void to_value_scoped_action::cleanup()
     {
+        state.end_nested_sections();
         state.pop_output();
         state.anchors.swap(saved_anchors);
     }
diff --git a/src/document_state.cpp b/src/document_state.cpp
index 906bc19..c30a6d0 100644
--- a/src/document_state.cpp
+++ b/src/document_state.cpp
@@ -151,7 +151,9 @@ namespace quickbook
 
     int document_state::section_level() const
     {
-        return state->current_file->document->current_section->level;
+        return state->current_file
+                   ? state->current_file->document->current_section->level
+                   : 0;
     }
 
     value const& document_state::explicit_id() const
diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index bbf5a0e..be4c0e7 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -1144,11 +1144,15 @@ namespace quickbook
         state_.explicit_list = false;
 
         list_stack.push(list_stack_item(list_stack_item::nested_block));
+        state_.start_nested_sections();
     }
 
     void main_grammar_local::end_blocks_impl(parse_iterator, parse_iterator)
     {
         clear_stack();
+        if (list_stack.top().type == list_stack_item::nested_block) {
+            state_.end_nested_sections();
+        }
         list_stack.pop();
     }
 
diff --git a/src/state.hpp b/src/state.hpp
index b280fc7..afe3dad 100644
--- a/src/state.hpp
+++ b/src/state.hpp
@@ -81,6 +81,7 @@ namespace quickbook
         // output state - scoped by templates and grammar
         bool in_list;                  // generating a list
         std::stack<bool> in_list_save; // save the in_list state
+        std::stack<int> min_section_level_save; // for nested blocks
         collector out;                 // main output stream
         collector phrase;              // phrase output stream
 
@@ -105,6 +106,10 @@ namespace quickbook
         void start_list_item();
         void end_list_item();
 
+        // The sections opened in a nested block have to be closed in it.
+        void start_nested_sections();
+        void end_nested_sections();
+
         void start_callouts();
         std::string add_callout(value);
         std::string end_callouts();
-- 
2.43.0


From 8ac5298537b56c49cab25889b3fc9a266c2cc620 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:37:27 +0000
Subject: [PATCH 47/49] fix: image attributes without a valid name were written

---
 src/actions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index d68d326..3469f0d 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -958,6 +958,12 @@ namespace quickbook
             std::string name_str(
                 name.get_quickbook().begin(), name.get_quickbook().end());
             pair.finish();
+            if (name_str.empty() || (name_str[0] >= '0' && name_str[0] <= '9')) {
+                detail::outwarn(name.get_file(), name.get_position())
+                    << "Invalid image attribute name: '" << name.get_quickbook()
+                    << "'" << std::endl;
+                continue;
+            }
             if (!attributes.insert(std::make_pair(name_str, value)).second) {
                 detail::outwarn(name.get_file(), name.get_position())
                     << "Duplicate image attribute: " << name.get_quickbook()
-- 
2.43.0


From 6b54364025effb412a530429d396a8f442481a66 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:37:47 +0000
Subject: [PATCH 48/49] fix: an svg file with an unterminated width failed

---
 src/actions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index 3469f0d..0183777 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1078,7 +1078,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentwidth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
@@ -1088,7 +1088,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentdepth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
-- 
2.43.0


From 41b841ba7d5b920309bc00c3e11a2c760bd672ff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:40:56 +0000
Subject: [PATCH 49/49] fix: a footnote in the document info crashed

---
 src/document_state.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/document_state.cpp b/src/document_state.cpp
index c30a6d0..e3787f4 100644
--- a/src/document_state.cpp
+++ b/src/document_state.cpp
@@ -380,6 +380,9 @@ namespace quickbook
     id_placeholder const* document_state_impl::add_id(
         quickbook::string_view id, id_category category)
     {
+        // In the main file's document info the document hasn't started yet.
+        if (!current_file) return add_placeholder(id, category);
+
         return add_id_to_section(
             id, category, current_file->document->current_section);
     }
-- 
2.43.0

