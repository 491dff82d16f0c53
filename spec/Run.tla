--------------------------------- MODULE Run ---------------------------------
(* One run of the program: command line, documents, outputs, exit status.    *)
(* A run goes through stages; each may report errors.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* ------------------------------------------------------------ documents *)
\* What a piece of text does when it is processed, by language version:
\* "ok", "warn" or "error".
Since(v, n, a, b) == IF v >= n THEN b ELSE a
Effect(k, v, strict) ==
    CASE k \in {"word", "boldword", "escaped", "para", "list", "table", "code", "heading", "anchor", "undeftpl", "link", "footnote"} ->
             IF strict /\ k = "undeftpl" THEN "error" ELSE "ok"
      [] k = "section" -> "ok"
      [] k = "opensection" -> IF strict THEN "error" ELSE "warn"
      [] k = "tplargs" -> "error"            \* wrong number of template arguments
      [] k = "loop" -> "error"               \* a template that calls itself
      [] k = "escargs" -> Since(v, 105, "none", "error")   \* arguments for an escaped template
      [] k = "attrtpl" -> Since(v, 107, "none", "error")   \* block template in an attribute
      [] k = "badid" -> Since(v, 107, "ok", "error")       \* characters that an id can't have
      [] k = "imgpath" -> Since(v, 106, "warn", "error")
      [] k = "endsect" -> "error"            \* no section to end
      [] k = "endsectid" -> Since(v, 107, "none", "error")
      [] k = "badtable" -> "error"           \* syntax error in a table
      [] k = "liststyle" -> "error"
      [] k = "listpara" -> IF v = 106 THEN "error" ELSE "ok"
      [] k = "incmissing" -> "error"
      [] k = "impmissing" -> "error"
      [] k = "incdir" -> "error"             \* a folder
      [] k = "incpath" -> Since(v, 106, "warn", "error")
      [] k = "xiglob" -> Since(v, 107, "none", "error")
      [] k = "incempty" -> Since(v, 106, "none", "error")
      [] k = "impend" -> Since(v, 106, "warn", "error")    \* end of a snippet that was not begun
      [] k = "impopen" -> Since(v, 106, "warn", "error")
      [] k = "impredef" -> "error"           \* two snippets of one name
      [] k = "callout" -> "error"            \* an error inside a callout
      [] k = "tplmismatch" -> Since(v, 106, "none", "error")  \* a template that ends a section it did not begin
      [] k = "tplopen" -> Since(v, 106, "none", "error")      \* a template that leaves a section open
      [] OTHER -> "none"
\* "none": the kind is not used with that version
Phrases == {"word", "boldword", "escaped", "anchor", "undeftpl", "link", "footnote", "tplargs", "loop", "escargs", "attrtpl", "badid",
            "imgpath"}
Blocks == {"para", "list", "table", "code", "heading", "section", "opensection", "endsect", "endsectid", "badtable", "liststyle", "listpara",
           "incmissing", "impmissing", "incdir", "incpath", "xiglob", "incempty", "impend", "impopen", "impredef", "callout", "tplmismatch", "tplopen"}
PhraseCtx == {"plain", "bold", "item", "cell", "title", "sect", "adm", "tpl", "arg", "foot", "inc", "incinc", "cond", "condfalse", "uncalled", "snip", "vlist"}
BlockCtx == {"plain", "sect", "blocktpl", "inc", "incinc", "uncalled", "snip"}
\* contexts where the text is not a piece of its own
Allowed(k, x, v) ==
    /\ k \in Phrases => x \in PhraseCtx
    /\ k \in Blocks => x \in BlockCtx \cup (IF v >= 107 THEN {"adm", "cell"} ELSE {})
    /\ Effect(k, v, FALSE) # "none"
    /\ k = "undeftpl" /\ v < 106 => x # "cell"     \* the brackets of a cell
    /\ k \in {"opensection"} => x = "plain"
    /\ k \in {"endsect", "tplmismatch", "tplopen", "badtable", "section", "endsectid"} => x \in {"plain", "sect", "inc", "incinc"}
\* Contexts in which a piece is not processed
Dropped == {"condfalse", "uncalled"}
\* Brackets are matched even in a condition that is false
Matched(k, x) == k = "undeftpl" /\ x = "condfalse"
DocErrors(d, strict) ==
    \/ \E i \in 1..Len(d.pieces) : Effect(d.pieces[i], d.ver, strict) = "error" /\ (d.ctx \notin Dropped \/ Matched(d.pieces[i], d.ctx))
    \* a snippet that is defined twice
    \/ d.ctx \notin Dropped /\ \E i, j \in 1..Len(d.pieces) : i # j /\ d.pieces[i] = d.pieces[j] /\ d.pieces[i] \in {"impopen"}

(* -------------------------------------------------------------- the run *)
\* A command line c: fmt, out, noout, deps, loc, depsfmt, define, xbase,
\* expect, strict, pretty, doc.  doc: "ok", "error", "missing" (no such
\* file), "folder", "version" (unknown version), "info" (bad information),
\* "unbalanced" (raw closing tags that nothing opened).
Chunked(c) == c.fmt = "html"
Html(c) == c.fmt \in {"html", "onehtml"}
GivesFile(c) == c.out \in {"file", "both", "nofolder", "full", "isfolder"}
GivesDir(c) == c.out \in {"dir", "both", "nodirfolder", "isfile"}
Explicit(c) == c.out # "default"
NoDoc(c) == \/ c.noout /\ ~Explicit(c)
            \/ ~c.noout /\ c.fmt \in {"none"} /\ ~Explicit(c) /\ (c.deps # "none" \/ c.loc # "none")
OptionErrors(c) ==
    (IF c.fmt = "bogus" THEN {"format"} ELSE {})
    \cup (IF c.doc = "missing" THEN {"input"} ELSE {})
    \cup (IF c.depsfmt = "bogus" THEN {"depsformat"} ELSE {})
    \cup (IF GivesFile(c) /\ Chunked(c) THEN {"file for chunked"} ELSE {})
    \cup (IF GivesDir(c) /\ ~Chunked(c) THEN {"dir for file"} ELSE {})
    \cup (IF c.out = "nofolder" /\ ~Chunked(c) THEN {"folder"} ELSE {})
    \cup (IF c.out = "nodirfolder" /\ Chunked(c) THEN {"folder"} ELSE {})
    \cup (IF c.xbase = "missing" THEN {"xinclude-base"} ELSE {})

VARIABLES c, stage, errs, doc, deps, loc, threw
vars == <<c, stage, errs, doc, deps, loc, threw>>
\* doc: "no", "yes" (all of it written), "part" (what could be)
RInit(x) == [c |-> x, stage |-> "options", errs |-> FALSE, doc |-> "no", deps |-> "no", loc |-> "no", threw |-> FALSE]
Options(r) ==
    IF r.c.depsfmt = "throw" THEN [r EXCEPT !.stage = "end", !.errs = TRUE, !.threw = TRUE]
    ELSE IF OptionErrors(r.c) # {} THEN [r EXCEPT !.stage = "end", !.errs = TRUE]
    ELSE [r EXCEPT !.stage = "define"]
Define(r) == IF r.c.define = "bad" THEN [r EXCEPT !.stage = "deps", !.errs = TRUE] ELSE [r EXCEPT !.stage = "load"]
\* a file that can't be loaded stops everything
Load(r) == IF r.c.doc = "folder" THEN [r EXCEPT !.stage = "end", !.errs = TRUE] ELSE [r EXCEPT !.stage = "parse"]
Parse(r) == [r EXCEPT !.stage = "deps", !.errs = r.c.doc \in {"error", "version", "info"}]
\* dependencies are written even when there are errors
Deps(r) ==
    IF r.c.deps \in {"full", "nofolder"} THEN [r EXCEPT !.stage = "end", !.errs = TRUE]
    ELSE [r EXCEPT !.stage = "loc", !.deps = IF r.c.deps = "ok" THEN "yes" ELSE "no"]
Loc(r) ==
    IF r.c.loc \in {"full", "nofolder"} THEN [r EXCEPT !.stage = "end", !.errs = TRUE]
    ELSE [r EXCEPT !.stage = IF r.errs \/ NoDoc(r.c) THEN "end" ELSE "print", !.loc = IF r.c.loc = "ok" THEN "yes" ELSE "no"]
\* a file that can't be indented is an error, but can still be written as BoostBook
Indent(r) ==
    IF r.c.doc = "unbalanced" /\ (r.c.pretty \/ Html(r.c))
    THEN [r EXCEPT !.errs = TRUE, !.stage = IF Html(r.c) THEN "end" ELSE "write"]
    ELSE [r EXCEPT !.stage = "write"]
Write(r) ==
    IF r.c.out \in {"full", "isfolder", "isfile"} THEN [r EXCEPT !.stage = "end", !.errs = TRUE]
    ELSE [r EXCEPT !.stage = "end", !.doc = "yes"]
Step(r) == CASE r.stage = "options" -> Options(r) [] r.stage = "define" -> Define(r) [] r.stage = "load" -> Load(r)
             [] r.stage = "parse" -> Parse(r) [] r.stage = "deps" -> Deps(r) [] r.stage = "loc" -> Loc(r)
             [] r.stage = "print" -> Indent(r) [] r.stage = "write" -> Write(r)
RECURSIVE RunFrom(_)
RunFrom(r) == IF r.stage = "end" THEN r ELSE RunFrom(Step(r))
Result(x) ==
    LET r == RunFrom(RInit(x))
    IN [errs |-> r.errs \/ (x.expect /\ ~r.errs),
        status |-> IF r.threw THEN 1 ELSE IF x.expect THEN (IF r.errs THEN 0 ELSE 1) ELSE (IF r.errs THEN 1 ELSE 0),
        doc |-> r.doc, deps |-> r.deps, loc |-> r.loc]

(* ------------------------------------------------------------------ model *)
Formats == {"none", "boostbook", "html", "onehtml", "bogus"}
Outs == {"default", "file", "dir", "both", "nofolder", "nodirfolder", "full", "isfolder", "isfile"}
DepsOuts == {"none", "ok", "full", "nofolder"}
DocKinds == {"ok", "error", "missing", "folder", "version", "info", "unbalanced"}
Configs == [fmt : Formats, out : Outs, noout : BOOLEAN, deps : DepsOuts, loc : DepsOuts, depsfmt : {"none", "checked", "bogus", "throw"},
            define : {"none", "ok", "bad"}, xbase : {"none", "ok", "missing"}, expect : BOOLEAN, strict : BOOLEAN, pretty : BOOLEAN, doc : DocKinds]
\* what the model check covers: all of the configurations with few dimensions off their defaults
Plain == [fmt |-> "none", out |-> "default", noout |-> FALSE, deps |-> "none", loc |-> "none", depsfmt |-> "none", define |-> "none", xbase |-> "none",
          expect |-> FALSE, strict |-> FALSE, pretty |-> TRUE, doc |-> "ok"]
Main == {[Plain EXCEPT !.fmt = f, !.out = o, !.noout = n, !.doc = d, !.deps = p, !.expect = e, !.pretty = pp] :
            f \in Formats, o \in Outs, n \in BOOLEAN, d \in DocKinds, p \in DepsOuts, e \in BOOLEAN, pp \in BOOLEAN}
Side == {[Plain EXCEPT !.fmt = f, !.depsfmt = df, !.define = de, !.xbase = x, !.deps = p, !.loc = l, !.doc = d, !.strict = st, !.expect = e] :
            f \in {"none", "html"}, df \in {"none", "checked", "bogus", "throw"}, de \in {"none", "ok", "bad"}, x \in {"none", "ok", "missing"},
            p \in DepsOuts, l \in DepsOuts, d \in {"ok", "error", "folder"}, st \in BOOLEAN, e \in BOOLEAN}
State == [c |-> c, stage |-> stage, errs |-> errs, doc |-> doc, deps |-> deps, loc |-> loc, threw |-> threw]
Set(r) == c' = r.c /\ stage' = r.stage /\ errs' = r.errs /\ doc' = r.doc /\ deps' = r.deps /\ loc' = r.loc /\ threw' = r.threw
Init == /\ c \in Main \cup Side
        /\ stage = "options" /\ errs = FALSE /\ doc = "no" /\ deps = "no" /\ loc = "no" /\ threw = FALSE
Next == stage # "end" /\ Set(Step(State))
Spec == Init /\ [][Next]_vars
Ended == stage = "end"
\* without errors everything that was asked for has been written
Complete == (Ended /\ ~errs) => /\ doc = (IF NoDoc(c) THEN "no" ELSE "yes")
                                /\ deps = (IF c.deps = "none" THEN "no" ELSE "yes")
                                /\ loc = (IF c.loc = "none" THEN "no" ELSE "yes")
\* an error in the document or the command leaves no output document
NoOutput == (Ended /\ doc = "yes" /\ errs) => c.doc = "unbalanced" /\ ~Html(c) /\ c.pretty
\* errors never go away
ErrorsStay == [][errs => errs']_vars
StatusOK == Ended => LET x == Result(c) IN
              /\ (x.status = 0) = (IF c.expect THEN errs /\ ~threw ELSE ~errs)
              /\ x.status # 0 => x.errs
              /\ x.doc = doc
=============================================================================
