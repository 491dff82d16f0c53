-------------------------------- MODULE Html --------------------------------
(* From a BoostBook document to HTML pages.                                  *)
(*                                                                           *)
(* A node is [t tag ("#" for text), x text, id, r role, u reference, k       *)
(* children]; "" stands for an attribute that is not there.  References are  *)
(* places: "http://...", "/B/..." for files ("/B/out/" is where the pages    *)
(* are), or "@page#fragment" for places in the pages.                        *)
(*                                                                           *)
(* The machine writes one page after the other.  Its state has the items     *)
(* still to be written (nodes, tags), the events written so far, and the     *)
(* footnotes of the page, which are written at its end.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NoNode == [t |-> "", x |-> "", id |-> "", r |-> "", u |-> "", k |-> <<>>]
ChunkTypes == {"book", "article", "library", "chapter", "part", "appendix", "preface", "qandadiv", "qandaset", "reference", "set", "section"}
InfoTypes == {c \o "info" : c \in ChunkTypes}
IsText(n) == n.t = "#"
IsEl(n) == n.t # "#"

(* --------------------------------------------------------- events, items *)
Ev(e, t, id, c, u, x) == [e |-> e, t |-> t, id |-> id, c |-> c, u |-> u, x |-> x]
O(t, id, c, u) == [k |-> "ev", e |-> Ev("open", t, id, c, u, "")]
C(t) == [k |-> "ev", e |-> Ev("close", t, "", "", "", "")]
T(x) == [k |-> "ev", e |-> Ev("text", "", "", "", "", x)]
N(n, toc) == [k |-> "node", n |-> n, toc |-> toc]
Kids(n, toc) == [i \in 1..Len(n.k) |-> N(n.k[i], toc)]
Concat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

(* ---------------------------------------------------------------- chunks *)
\* The parts of the document that can be pages, in document order.
IsChunk(n) == n.t \in ChunkTypes
ChunkOf(n, par) ==
    LET titles == SelectSeq(n.k, LAMBDA y : y.t = "title")
        infos == SelectSeq(n.k, LAMBDA y : y.t \in InfoTypes)
    IN [id |-> n.id, path |-> n.x, sec |-> n.t = "section", par |-> par,
        title |-> IF titles = <<>> THEN <<>> ELSE <<Last(titles)>>, info |-> IF infos = <<>> THEN <<>> ELSE <<Last(infos)>>,
        node |-> [n EXCEPT !.k = SelectSeq(n.k, LAMBDA y : ~IsChunk(y) /\ y.t # "title" /\ y.t \notin InfoTypes)]]
RECURSIVE Flat(_, _, _)
Flat(n, par, at) ==
    FoldLeft(LAMBDA cs, y : IF IsChunk(y) THEN cs \o Flat(y, at, at + Len(cs)) ELSE cs, <<ChunkOf(n, par)>>, n.k)
RECURSIVE IdsIn(_)
IdsIn(n) == (IF n.id = "" THEN <<>> ELSE <<n.id>>) \o FoldLeft(LAMBDA a, y : a \o IdsIn(y), <<>>, n.k)
\* parts without an id get one that nothing else has
RECURSIVE FreshPage(_, _)
FreshPage(c, ids) == LET nm == "page-" \o ToString(c) IN IF nm \in ids THEN FreshPage(c + 2, ids) ELSE c
NameParts(cs, ids) ==
    FoldLeft(LAMBDA a, y : IF y.id # "" THEN [a EXCEPT !.cs = Append(@, y)]
                           ELSE LET m == FreshPage(a.c, ids)
                                IN [cs |-> Append(a.cs, [y EXCEPT !.id = "page-" \o ToString(m), !.path = "page-" \o ToString(m)]), c |-> m + 2],
             [cs |-> <<>>, c |-> 1], cs).cs
\* Sections at the beginning of a page belong to the page, with all they contain.
InlineParts(cs, single) ==
    FoldLeft(LAMBDA inl, i :
        Append(inl, i > 1 /\ (single \/ inl[cs[i].par]
                              \/ \A j \in 1..i : cs[j].par = cs[i].par => cs[j].sec)), <<>>, [i \in 1..Len(cs) |-> i])
RECURSIVE PageOf(_, _, _)
PageOf(cs, inl, i) == IF inl[i] THEN PageOf(cs, inl, cs[i].par) ELSE i
\* Each page has a file of its own.
RECURSIVE FreshName(_, _, _)
FreshName(b, m, used) == LET nm == IF m = 0 THEN b ELSE b \o "-" \o ToString(m) IN IF nm \in used THEN FreshName(b, m + 1, used) ELSE nm
PageNames(cs, inl, home) ==
    FoldLeft(LAMBDA a, i : Append(a, IF inl[i] THEN a[PageOf(cs, inl, i)]
                                     ELSE FreshName(IF i = 1 THEN home ELSE cs[i].path, 0, {a[j] : j \in 1..(i - 1)})),
             <<>>, [i \in 1..Len(cs) |-> i])
(* A document: parts, where they are, and where each id is *)
Doc(root, o) ==
    LET ids == ToSet(IdsIn(root))
        cs == NameParts(Flat(root, 0, 1), ids)
        inl == InlineParts(cs, o.single)
        nm == PageNames(cs, inl, o.home)
        place(i, f) == "@" \o nm[i] \o (IF f = "" THEN "" ELSE "#" \o f)
        inPart(i) == Concat([j \in 1..Len(cs[i].title) |-> IdsIn(cs[i].title[j])] \o [j \in 1..Len(cs[i].info) |-> IdsIn(cs[i].info[j])] \o <<IdsIn(cs[i].node)>>)
        pairs == Concat([i \in 1..Len(cs) |->
                    <<[id |-> cs[i].id, u |-> place(i, IF inl[i] THEN cs[i].id ELSE "")]>>
                    \o LET s == inPart(i) IN [j \in 1..Len(s) |-> [id |-> s[j], u |-> place(i, s[j])]]])
        all == {pairs[i].id : i \in 1..Len(pairs)}
    IN [o |-> o, cs |-> cs, inl |-> inl, nm |-> nm,
        at |-> [d \in all |-> pairs[CHOOSE i \in 1..Len(pairs) : pairs[i].id = d /\ \A j \in 1..(i - 1) : pairs[j].id # d].u],
        pages |-> SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : ~inl[i]),
        idsOf |-> [i \in 1..Len(cs) |-> inPart(i)]]
SubParts(d, i) == SelectSeq([j \in 1..Len(d.cs) |-> j], LAMBDA j : d.cs[j].par = i)
Page(d, i) == "@" \o d.nm[i]
Parent(d, i) == d.cs[i].par

(* -------------------------------------------------------------- callouts *)
RECURSIVE CalloutsIn(_)
CalloutsIn(n) ==      \* the callouts of a list, without those of lists in it
    FoldLeft(LAMBDA a, y : IF y.t = "calloutlist" THEN a ELSE (IF y.t = "callout" THEN Append(a, y.id) ELSE a) \o CalloutsIn(y), <<>>, n.k)
RECURSIVE Lists(_)
Lists(n) == (IF n.t = "calloutlist" THEN <<SelectSeq(CalloutsIn(n), LAMBDA d : d # "")>> ELSE <<>>) \o FoldLeft(LAMBDA a, y : a \o Lists(y), <<>>, n.k)
RECURSIVE Marks(_)
Marks(n) == (IF n.t = "co" /\ n.u # "" THEN <<[id |-> n.id, u |-> n.u]>> ELSE <<>>) \o FoldLeft(LAMBDA a, y : a \o Marks(y), <<>>, n.k)
Callouts(root) ==
    LET ls == Lists(root)
        ms == Marks(root)
        ids == UNION {ToSet(ls[i]) : i \in 1..Len(ls)}
    IN [num |-> [d \in ids |-> LET l == CHOOSE i \in 1..Len(ls) : d \in ToSet(ls[i]) IN CHOOSE j \in 1..Len(ls[l]) : ls[l][j] = d],
        mark |-> [d \in {ms[i].u : i \in 1..Len(ms)} |-> ms[CHOOSE i \in 1..Len(ms) : ms[i].u = d /\ \A j \in (i + 1)..Len(ms) : ms[j].u # d].id]]

(* -------------------------------------------------------------- elements *)
Same == [simpara |-> "div", orderedlist |-> "ol", itemizedlist |-> "ul", listitem |-> "li", blockquote |-> "blockquote", quote |-> "q",
         code |-> "code", macronname |-> "code", classname |-> "code", literal |-> "tt", subscript |-> "sub", superscript |-> "sup",
         section |-> "div", anchor |-> "span", title |-> "h3", calloutlist |-> "div", sbr |-> "br"]
WithClass == [programlisting |-> <<"pre", "programlisting">>, warning |-> <<"div", "warning">>, caution |-> <<"div", "caution">>,
              important |-> <<"div", "important">>, note |-> <<"div", "note">>, tip |-> <<"div", "tip">>, replaceable |-> <<"em", "replaceable">>]
Heads == [sect1 |-> "h1", sect2 |-> "h2", sect3 |-> "h3", sect4 |-> "h4", sect5 |-> "h5", sect6 |-> "h6"]
IdOf(n, toc) == IF toc THEN "" ELSE n.id
El(n, toc, t, c, u) == <<O(t, IdOf(n, toc), c, u)>> \o Kids(n, toc) \o <<C(t)>>
Sub(n, t) == SelectSeq(n.k, LAMBDA y : y.t = t)
Graphic(o, file, alt) == IF o.graphics = "" THEN <<T(alt)>> ELSE <<O("img", "", "", o.graphics \o file), C("img")>>
CalloutGraphic(o, m) == Graphic(o, "/callouts/" \o ToString(m) \o ".png", "(" \o ToString(m) \o ")")
Rows(n, toc, td) ==
    Concat([i \in 1..Len(Sub(n, "row")) |->
        LET r == Sub(n, "row")[i]
        IN <<O("tr", IdOf(r, toc), "", "")>> \o Concat([j \in 1..Len(Sub(r, "entry")) |-> El(Sub(r, "entry")[j], toc, td, n.r, "")]) \o <<C("tr")>>])
LastOf(s) == IF s = <<>> THEN <<>> ELSE <<Last(s)>>
Table(n, toc) ==
    LET tg == LastOf(Sub(n, "tgroup"))
        title == LastOf(Sub(n, "title"))
        part(nm, tag, td) == IF tg = <<>> \/ Sub(tg[1], nm) = <<>> THEN <<>> ELSE <<O(tag, "", "", "")>> \o Rows(Last(Sub(tg[1], nm)), toc, td) \o <<C(tag)>>
    IN IF tg = <<>> THEN <<>>
       ELSE <<O("div", IdOf(n, toc), n.t, ""), O("table", "", "", "")>>
            \o (IF title = <<>> THEN <<>> ELSE El(title[1], toc, "caption", "", ""))
            \o part("thead", "thead", "th") \o part("tbody", "tbody", "td") \o <<C("table"), C("div")>>
\* (a title of the list is lost: known finding)
VarList(n, toc) ==
    LET es == SelectSeq(Sub(n, "varlistentry"), LAMBDA y : Sub(y, "term") # <<>> /\ Sub(y, "listitem") # <<>>)
    IN IF es = <<>> THEN <<>>
       ELSE <<O("dl", IdOf(n, toc), "", "")>>
            \o Concat([i \in 1..Len(es) |-> El(Last(Sub(es[i], "term")), toc, "dt", "", "") \o El(Last(Sub(es[i], "listitem")), toc, "dd", "", "")])
            \o <<C("dl")>>
\* What a node other than a footnote becomes.  s.d is the document.
Expand(s, n, toc) ==
    LET d == s.d
        link(u) == IF u = "" THEN "" ELSE u
    IN CASE n.t = "#" -> <<T(n.x)>>
         [] n.t \in DOMAIN Same -> El(n, toc, Same[n.t], "", "")
         [] n.t \in DOMAIN WithClass -> El(n, toc, WithClass[n.t][1], WithClass[n.t][2], "")
         [] n.t = "sidebar" -> El(n, toc, "div", IF n.r = "blurb" THEN "blurb" ELSE "sidebar", "")
         [] n.t = "bridgehead" -> El(n, toc, IF n.u \in DOMAIN Heads THEN Heads[n.u] ELSE "h3", "", "")
         [] n.t = "ulink" -> El(n, toc, "a", "", IF n.r = "boost" THEN d.o.boost \o n.u ELSE n.u)
         [] n.t = "link" -> El(n, toc, "a", "", IF n.u \in DOMAIN d.at THEN d.at[n.u] ELSE "")
         [] n.t = "phrase" -> El(n, toc, "span", n.r, "")
         [] n.t = "para" -> El(n, toc, "p", n.r, "")
         [] n.t = "emphasis" ->
               IF n.r = "" THEN <<O("span", IdOf(n, toc), "emphasis", ""), O("em", "", "", "")>> \o Kids(n, toc) \o <<C("em"), C("span")>>
               ELSE IF n.r \in {"bold", "strong"} THEN <<O("span", IdOf(n, toc), n.r, ""), O("strong", "", "", "")>> \o Kids(n, toc) \o <<C("strong"), C("span")>>
               ELSE El(n, toc, "span", n.r, "")
         [] n.t = "inlinemediaobject" ->
               IF n.u = "" THEN <<>>
               ELSE <<O("span", "", "inlinemediaobject", ""), O("img", IdOf(n, toc), "", IF n.r = "boost" THEN d.o.boost \o n.u ELSE n.u), C("img"), C("span")>>
         [] n.t = "variablelist" -> VarList(n, toc)
         [] n.t \in {"table", "informaltable"} -> Table(n, toc)
         [] n.t = "callout" ->
               LET m == IF n.id \in DOMAIN s.co.num THEN s.co.num[n.id] ELSE 0
                   mark == IF n.id \in DOMAIN s.co.mark THEN s.co.mark[n.id] ELSE ""
                   g == CalloutGraphic(d.o, m)
               IN <<O("div", IdOf(n, toc), "", "")>>
                  \o (IF mark \in DOMAIN d.at THEN <<O("a", "", "", d.at[mark])>> \o g \o <<C("a")>> ELSE g)
                  \o <<T(" ")>> \o Kids(n, toc) \o <<C("div")>>
         [] n.t = "co" ->
               LET g == IF n.u = "" THEN <<T("(0)")>> ELSE CalloutGraphic(d.o, IF n.u \in DOMAIN s.co.num THEN s.co.num[n.u] ELSE 0)
               IN IF n.u \in DOMAIN d.at THEN <<O("a", "", "", d.at[n.u])>> \o g \o <<C("a")>> ELSE g
         [] n.t = "!back" -> <<O("a", "", "", n.u), O("sup", "", "", ""), T(n.x), C("sup"), C("a"), T(" ")>>
         [] OTHER -> Kids(n, toc)

(* ------------------------------------------------- document information *)
RECURSIVE Author(_)
Author(n) ==
    IF Sub(n, "personname") # <<>> THEN Author(Sub(n, "personname")[1])
    ELSE FoldLeft(LAMBDA a, p : IF Sub(n, p) = <<>> THEN a ELSE a \o (IF a = <<>> THEN <<>> ELSE <<T(" ")>>) \o Kids(Sub(n, p)[1], FALSE),
                  <<>>, <<"honorific", "firstname", "surname">>)
RECURSIVE Infos(_, _)
Infos(n, t) ==
    FoldLeft(LAMBDA a, y : IF y.t = t THEN Append(a, y)
                           ELSE IF y.t \in {"copyright", "legalnotice", "pubdate", "author", "editor", "collab", "corpauthor", "corpcredit", "othercredit", "#"} THEN a
                           ELSE a \o Infos(y, t), <<>>, n.k)
RECURSIVE InfosAny(_, _)
InfosAny(n, ts) ==
    FoldLeft(LAMBDA a, y : IF y.t \in ts THEN Append(a, y)
                           ELSE IF y.t \in {"copyright", "legalnotice", "pubdate", "author", "editor", "collab", "corpauthor", "corpcredit", "othercredit", "#"} THEN a
                           ELSE a \o InfosAny(y, ts), <<>>, n.k)
Credit(n) == (IF n.r # "" THEN <<T(n.r \o ": ")>> ELSE <<>>)
Name(n) == CASE n.t \in {"author", "editor"} -> Author(n)
             [] n.t = "othercredit" -> Credit(n) \o Author(n)
             [] n.t = "corpcredit" -> Credit(n) \o Kids(n, FALSE)
             [] n.t = "corpauthor" -> Kids(n, FALSE)
             [] n.t = "collab" -> Kids(Sub(n, "collabname")[1], FALSE)
Years(s) == FoldLeft(LAMBDA a, y : a \o (IF a = <<>> THEN <<>> ELSE <<T(", ")>>) \o Kids(y, FALSE), <<>>, s)
Holders(s) == Concat([i \in 1..Len(s) |-> (IF i = 1 THEN <<>> ELSE <<T(", ")>>) \o Kids(s[i], FALSE)])
Info(n) ==
    LET au == InfosAny(n, {"author", "corpauthor", "corpcredit", "othercredit"})
        ed == InfosAny(n, {"editor"})
        co == SelectSeq(InfosAny(n, {"collab"}), LAMBDA y : Sub(y, "collabname") # <<>>)
        h3(c, s) == Concat([i \in 1..Len(s) |-> <<O("h3", "", c, "")>> \o Name(s[i]) \o <<C("h3"), T("\n")>>])
        cr == Infos(n, "copyright")
        ln == Infos(n, "legalnotice")
        years(y) == Sub(y, "year")
        holders(y) == Sub(y, "holder")
    IN (IF au \o ed \o co = <<>> THEN <<>>
        ELSE <<O("div", "", "authorgroup", ""), T("\n")>> \o h3("author", au) \o h3("editor", ed) \o h3("collab", co) \o <<C("div"), T("\n")>>)
       \o Concat([i \in 1..Len(cr) |-> <<O("p", "", "copyright", "")>> \o Years(years(cr[i]))
              \o (IF Years(years(cr[i])) # <<>> /\ holders(cr[i]) # <<>> THEN <<T(" ")>> ELSE <<>>) \o Holders(holders(cr[i])) \o <<C("p")>>])
       \o Concat([i \in 1..Len(ln) |-> <<O("div", "", "legalnotice", "")>> \o Kids(ln[i], FALSE) \o <<C("div")>>])

(* ----------------------------------------------------------------- pages *)
\* Previous and next pages are neighbours in the order of the document.
Nav(d, i) ==
    LET p == SelectInSeq(d.pages, LAMBDA j : j = i)
        a(u, key, nm) == <<O("a", "", key, u)>> \o Graphic(d.o, "/" \o nm \o ".png", nm) \o <<C("a")>>
        prev == IF p = 1 THEN <<>> ELSE a(Page(d, d.pages[p - 1]), "p", "prev") \o <<T(" ")>>
        next == IF p = Len(d.pages) THEN <<>> ELSE a(Page(d, d.pages[p + 1]), "n", "next")
        up == IF i = 1 THEN <<>>
              ELSE a(Page(d, Parent(d, i)), "u", "up") \o <<T(" ")>> \o a(Page(d, 1), "h", "home") \o (IF next = <<>> THEN <<>> ELSE <<T(" ")>>)
    IN IF prev \o next \o up = <<>> THEN <<>> ELSE <<O("div", "", "spirit-nav", "")>> \o prev \o up \o next \o <<C("div")>>
\* The contents of a part that is not a section: its parts, the parts of
\* those that are not sections, and so on.
RECURSIVE Toc(_, _, _)
Toc(d, i, depth) ==
    LET ks == SubParts(d, i)
        entry(j) ==
            LET title == IF d.cs[j].title = <<>> THEN <<O("i", "", "", ""), T("Untitled"), C("i")>> ELSE Kids(d.cs[j].title[1], TRUE)
                below == IF d.cs[j].sec /\ depth > 0 THEN depth - 1 ELSE depth
            IN <<O("li", "", "", ""), O("a", "", "", d.at[d.cs[j].id])>> \o title \o <<C("a")>>
               \o (IF SubParts(d, j) = <<>> \/ (below = 0 /\ \A m \in ToSet(SubParts(d, j)) : d.cs[m].sec) THEN <<>> ELSE Toc(d, j, below))
               \o <<C("li")>>
    IN <<O("ul", "", "", "")>> \o Concat([m \in 1..Len(ks) |-> entry(ks[m])]) \o <<C("ul")>>
Contents(d, i) ==
    IF SubParts(d, i) = <<>> \/ d.cs[i].sec THEN <<>>
    ELSE <<O("div", "", "toc", ""), O("p", "", "", ""), O("b", "", "", ""), T("Table of contents"), C("b"), C("p")>> \o Toc(d, i, 1) \o <<C("div")>>
Part(d, i) ==
    Concat([j \in 1..Len(d.cs[i].title) |-> <<N(d.cs[i].title[j], FALSE)>>])
    \o Concat([j \in 1..Len(d.cs[i].info) |-> Info(d.cs[i].info[j])])
    \o Contents(d, i) \o <<N(d.cs[i].node, FALSE)>>
RECURSIVE Inlined(_, _)
Inlined(d, i) == <<O("div", d.cs[i].id, "", "")>> \o Part(d, i) \o FoldLeft(LAMBDA a, j : a \o Inlined(d, j), <<>>, SubParts(d, i)) \o <<C("div")>>
PageItems(d, i) ==
    <<O("html", "", "", ""), O("head", "", "", "")>>
    \o (IF d.o.css = "" THEN <<>> ELSE <<O("link", "", "stylesheet", d.o.css), C("link")>>)
    \o <<C("head"), O("body", "", "", "")>> \o Nav(d, i) \o Part(d, i)
    \o FoldLeft(LAMBDA a, j : IF d.inl[j] THEN a \o Inlined(d, j) ELSE a, <<>>, SubParts(d, i))
    \o <<[k |-> "notes"], C("body"), C("html")>>

(* --------------------------------------------------------------- machine *)
\* State: document d, callouts co, page number p, items to write, events
\* written, ids used in the page, footnotes of the page, number of footnotes
\* so far, pages done.
RECURSIVE PartIds(_, _)
PartIds(d, i) == FoldLeft(LAMBDA a, j : IF d.inl[j] THEN a \cup PartIds(d, j) ELSE a, ToSet(d.idsOf[i]), SubParts(d, i))
Begin(s, p) == [s EXCEPT !.p = p, !.todo = IF p > Len(s.d.pages) THEN <<>> ELSE PageItems(s.d, s.d.pages[p]), !.out = <<>>, !.notes = <<>>,
                         !.used = IF p > Len(s.d.pages) THEN {} ELSE PartIds(s.d, s.d.pages[p])]
Start(root, o) ==
    Begin([d |-> Doc(root, o), co |-> Callouts(root), p |-> 0, todo |-> <<>>, out |-> <<>>, used |-> {}, notes |-> <<>>, num |-> 0, done |-> <<>>], 1)
RECURSIVE FreshNote(_, _)
FreshNote(m, used) == LET nm == "footnote-" \o ToString(m) IN IF nm \in used THEN FreshNote(m + 1, used) ELSE nm
\* a footnote's text, with its number and the link back before the text
WithBack(n, back) ==
    LET at == SelectInSeq(n.k, LAMBDA y : ~(y.t = "#" /\ y.r = "ws"))
    IN IF at = 0 THEN [n EXCEPT !.k = <<back>> \o @]
       ELSE IF n.k[at].t \in {"para", "simpara"} THEN [n EXCEPT !.k[at].k = <<back>> \o @]
       ELSE [n EXCEPT !.k = SubSeq(@, 1, at - 1) \o <<back>> \o SubSeq(@, at, Len(@))]
Footnote(s, n) ==
    LET nid == FreshNote(1, s.used)
        rid == IF n.id # "" THEN n.id ELSE FreshNote(1, s.used \cup {nid})
        here == Page(s.d, s.d.pages[s.p]) \o "#"
        label == "[" \o ToString(s.num + 1) \o "]"
    IN [s EXCEPT !.num = @ + 1, !.used = @ \cup {nid, rid},
                 !.todo = <<O("a", rid, "", here \o nid), O("sup", "", "footnote", ""), T(label), C("sup"), C("a")>> \o @,
                 !.notes = Append(@, [id |-> nid, n |-> WithBack(n, [NoNode EXCEPT !.t = "!back", !.u = here \o rid, !.x = label])])]
Step(s) ==
    LET i == Head(s.todo)
        r == [s EXCEPT !.todo = Tail(@)]
    IN CASE i.k = "ev" -> [r EXCEPT !.out = Append(@, i.e)]
         [] i.k = "node" -> IF i.n.t = "footnote" THEN (IF i.toc THEN r ELSE Footnote(r, i.n)) ELSE [r EXCEPT !.todo = Expand(s, i.n, i.toc) \o @]
         [] i.k = "notes" ->
               IF s.notes = <<>> THEN r
               ELSE [r EXCEPT !.todo = <<O("div", "", "footnotes", ""), O("br", "", "", ""), C("br"), O("hr", "", "", ""), C("hr"), [k |-> "note", i |-> 1], C("div")>> \o @]
         [] i.k = "note" ->
               IF i.i > Len(s.notes) THEN r
               ELSE LET f == s.notes[i.i]
                    IN [r EXCEPT !.todo = <<O("div", f.id, "footnote", "")>> \o Kids(f.n, FALSE) \o <<C("div"), [k |-> "note", i |-> i.i + 1]>> \o @]
Finish(s) == Begin([s EXCEPT !.done = Append(@, [page |-> s.d.nm[s.d.pages[s.p]], out |-> s.out])], s.p + 1)
Finished(s) == s.p > Len(s.d.pages)
\* all of a page at once
RECURSIVE Drain(_, _)
Drain(s, m) == IF s.todo = <<>> \/ m = 0 THEN s ELSE Drain(Step(s), m - 1)
RECURSIVE WholePage(_)
WholePage(s) == IF s.todo = <<>> THEN s ELSE WholePage(FoldLeft(LAMBDA z, i : IF z.todo = <<>> THEN z ELSE Step(z), s, [i \in 1..200 |-> i]))
RECURSIVE AllPages(_)
AllPages(s) == IF Finished(s) THEN s.done ELSE AllPages(Finish(WholePage(s)))
\* neighbouring texts are one text
Merge(evs) == FoldLeft(LAMBDA a, e : IF e.e = "text" /\ a # <<>> /\ Last(a).e = "text" THEN [a EXCEPT ![Len(a)].x = @ \o e.x]
                                     ELSE IF e.e = "text" /\ e.x = "" THEN a ELSE Append(a, e), <<>>, evs)
Pages(root, o) == LET ps == AllPages(Start(root, o)) IN [i \in 1..Len(ps) |-> [page |-> ps[i].page, out |-> Merge(ps[i].out)]]
=============================================================================
