-------------------------------- MODULE Qbk ---------------------------------
(* The document processor: how a set of quickbook files is turned into        *)
(* BoostBook.  One step handles one piece of markup.  The machine `m` holds   *)
(* the continuation (`todo`: markup still to be handled, with control entries *)
(* that end constructs), the output under construction and everything that    *)
(* is in scope: macros, templates, sections, source modes, lists, ids.        *)
(*                                                                           *)
(* Markup (records with a field `k`) and files come in a world                *)
(*   w.files : path -> [doc, ver, id, title, src, mode, body]                 *)
(*   w.opts  : [selflink, strict, inc, def]                                   *)
(* Output tokens are triples <<kind, text, id>>: "w" text, "s" white space,   *)
(* "o"/"c" opening and closing tag, "a" attribute, "i" attribute whose value  *)
(* is the id numbered `id`, resolved when the document is complete.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
SetLast(s, x) == [s EXCEPT ![Len(s)] = x]

\* ---- strings
Digits == "0123456789"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
Ch(s, i) == SubSeq(s, i, i)
CharsOf(s) == {Ch(s, i) : i \in 1..Len(s)}
DigitSet == CharsOf(Digits)
UpperSet == CharsOf(Upper)
AlphaSet == UpperSet \cup CharsOf(Lower)
IsDigit(c) == c \in DigitSet
IsAlpha(c) == c \in AlphaSet
LowerOf == [c \in UpperSet |-> Ch(Lower, CHOOSE i \in 1..26 : Ch(Upper, i) = c)]

RECURSIVE IdentFrom(_, _)
IdentFrom(s, i) == IF i > Len(s) THEN ""
    ELSE LET c == Ch(s, i) IN
         (IF c \in UpperSet THEN LowerOf[c]
          ELSE IF IsAlpha(c) \/ IsDigit(c) THEN c ELSE "_") \o IdentFrom(s, i + 1)
Identifier(s) == IdentFrom(s, 1)

RECURSIVE CountDots(_, _)
CountDots(s, i) == IF i > Len(s) THEN 0 ELSE (IF Ch(s, i) = "." THEN 1 ELSE 0) + CountDots(s, i + 1)

\* no leading, trailing or repeated '_', at most `size` characters
RECURSIVE NormFrom(_, _, _, _)
NormFrom(s, i, acc, size) ==
    IF i > Len(s) \/ Len(acc) >= size THEN acc
    ELSE IF Ch(s, i) # "_" THEN NormFrom(s, i + 1, acc \o Ch(s, i), size)
    ELSE LET rest == {j \in i..Len(s) : Ch(s, j) # "_"} IN
         IF rest = {} THEN acc
         ELSE NormFrom(s, CHOOSE j \in rest : \A k \in rest : j <= k, acc \o "_", size)
NormalizeId(s, size) ==
    LET sig == {j \in 1..Len(s) : Ch(s, j) # "_"} IN
    IF sig = {} THEN "_"
    ELSE NormFrom(s, CHOOSE j \in sig : \A k \in sig : j <= k, "", size)

RECURSIVE LastIndex(_, _, _)
LastIndex(s, c, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE LastIndex(s, c, i - 1)
RECURSIVE TrimDigits(_)
TrimDigits(s) == IF s # "" /\ IsDigit(Ch(s, Len(s))) THEN TrimDigits(SubSeq(s, 1, Len(s) - 1)) ELSE s

DirOf(p) == LET i == LastIndex(p, "/", Len(p)) IN SubSeq(p, 1, i)   \* with its '/'
RECURSIVE SplitPath(_, _, _)
SplitPath(s, i, cur) ==
    IF i > Len(s) THEN <<cur>>
    ELSE IF Ch(s, i) = "/" THEN <<cur>> \o SplitPath(s, i + 1, "")
    ELSE SplitPath(s, i + 1, cur \o Ch(s, i))
RECURSIVE NormComps(_, _)
NormComps(cs, acc) ==
    IF cs = <<>> THEN acc
    ELSE LET c == Head(cs) IN
         NormComps(Tail(cs), IF c \in {"", "."} THEN acc
                             ELSE IF c = ".." /\ acc # <<>> /\ Last(acc) # ".." THEN Front(acc)
                             ELSE Append(acc, c))
RECURSIVE JoinComps(_)
JoinComps(cs) == IF cs = <<>> THEN "" ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o "/" \o JoinComps(Tail(cs))
NormPath(p) == JoinComps(NormComps(SplitPath(p, 1, ""), <<>>))

\* ---- tokens
W(s) == <<"w", s, 0>>
Sp == <<"s", " ", 0>>
Open(t) == <<"o", t, 0>>
Close(t) == <<"c", t, 0>>
Attr(a, v) == <<"a", a \o "=\"" \o v \o "\"", 0>>
IdAttr(a, n) == <<"i", a, n>>
HasText(toks) == \E i \in 1..Len(toks) : toks[i][1] # "s"
HasLink(toks) == \E i \in 1..Len(toks) : toks[i][1] = "o" /\ toks[i][2] = "link"
PhraseTags == {"emphasis", "literal", "quote", "replaceable", "footnote", "link", "anchor", "code", "phrase"}
HasBlock(toks) == \E i \in 1..Len(toks) : toks[i][1] = "o" /\ toks[i][2] \notin PhraseTags
                    /\ ~(toks[i][2] = "para" /\ i > 2 /\ toks[i - 2] = Open("footnote"))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE Words(_, _, _)
Words(s, i, cur) ==
    LET w == IF cur = "" THEN <<>> ELSE <<W(cur)>> IN
    IF i > Len(s) THEN w
    ELSE IF Ch(s, i) = " " THEN w \o <<Sp>> \o Words(s, i + 1, "")
    ELSE Words(s, i + 1, cur \o Ch(s, i))

\* the text of tokens as it stands before ids are resolved (old heading ids
\* are made from it)
RECURSIVE Ser(_, _, _, _)
Ser(toks, i, ids, tag) ==
    LET attr == i <= Len(toks) /\ toks[i][1] \in {"a", "i"}
        pre == IF tag # "" /\ ~attr THEN (IF tag = "anchor" THEN "/>" ELSE ">") ELSE ""
    IN IF i > Len(toks) THEN pre
       ELSE LET t == toks[i] IN
            pre \o (CASE t[1] \in {"w", "s"} -> t[2]
                      [] t[1] = "o" -> "<" \o t[2]
                      [] t[1] = "c" -> IF t[2] = "anchor" THEN "" ELSE "</" \o t[2] \o ">"
                      [] t[1] = "a" -> " " \o t[2]
                      [] t[1] = "i" -> " " \o t[2] \o "=\"" \o ids[t[3]].unres \o "\"")
                \o Ser(toks, i + 1, ids, IF t[1] = "o" THEN t[2] ELSE IF attr THEN tag ELSE "")

\* ---- the machine
NoMode == ""
Mode(md, o) == [md |-> md, ord |-> o]
Update(a, b) == IF b.ord > a.ord THEN b ELSE a

NumberedId == 1  GeneratedId == 2  HeadingId == 3  SectionId == 4  DocId == 5
ExplicitId == 6  ExplicitSectionId == 7  AnchorId == 8

PathMacro(p) == [x \in {"__FILENAME__"} |-> <<W(p)>>]

Start(w) ==
    [todo |-> <<[k |-> "load", path |-> "main.qbk", abs |-> "main.qbk", off |-> 0, nested |-> FALSE, incid |-> "", imp |-> FALSE]>>,
     v |-> 0, file |-> "main.qbk", abs |-> "main.qbk", off |-> 0, imp |-> FALSE,
     out |-> << <<>> >>, ph |-> << <<>> >>, inl |-> FALSE, inls |-> <<>>,
     anc |-> <<>>, cond |-> TRUE,
     mac |-> PathMacro("main.qbk") @@ [n \in DOMAIN w.opts.def |-> <<W(w.opts.def[n])>>],
     sc |-> <<[syms |-> <<>>, parent |-> 0, p14 |-> 0]>>, p14 |-> 1,
     td |-> 0, loop |-> FALSE, idep |-> 0, ms |-> 1,
     src |-> Mode("c++", 0), nxt |-> NoMode, tag |-> <<>>, ord |-> 0,
     err |-> 0, ids |-> <<>>, fl |-> <<>>, docs |-> <<>>,
     vals |-> <<>>, ls |-> <<>>, lind |-> 0, expl |-> FALSE,
     deps |-> {<<"main.qbk", TRUE>>},
     \* the document left what is specified here (markup inside a code block)
     un |-> FALSE]

Err(m) == [m EXCEPT !.err = @ + 1]
Out(m, toks) == [m EXCEPT !.out = SetLast(@, Last(@) \o toks)]
Ph(m, toks) == [m EXCEPT !.ph = SetLast(@, Last(@) \o toks)]
To(m, where, toks) == IF where = "out" THEN Out(m, toks) ELSE Ph(m, toks)

AnchorToks(anc) == Concat([i \in 1..Len(anc) |-> <<Open("anchor"), IdAttr("id", anc[i]), Close("anchor")>>])
Anchors(m, where) ==
    IF m.anc = <<>> /\ m.nxt = NoMode THEN m
    ELSE [To(m, where, AnchorToks(m.anc)) EXCEPT !.anc = <<>>, !.nxt = NoMode]

\* the end of a paragraph
Flush(m) ==
    LET s == Last(m.ph)
        m1 == [m EXCEPT !.ph = SetLast(@, <<>>)]
        t == IF m.inl THEN "simpara" ELSE "para"
    IN IF ~HasText(s) THEN m1
       ELSE Out(Anchors(Out(m1, <<Open(t)>> \o s), "out"), <<Close(t)>>)

PushOut(m) == [m EXCEPT !.out = Append(@, <<>>), !.ph = Append(@, <<>>), !.inls = Append(@, m.inl)]
PopOut(m) == [m EXCEPT !.out = Front(@), !.ph = Front(@), !.inl = Last(m.inls), !.inls = Front(@)]

\* ---- source modes
PushTag(m, md) == [m EXCEPT !.tag = Append(@, Mode(md, IF md = NoMode THEN 0 ELSE m.ord + 1)),
                            !.ord = IF md = NoMode THEN @ ELSE @ + 1]
PopTag(m) == [m EXCEPT !.tag = Front(@)]
ChangeMode(m, md) == [m EXCEPT !.src = Mode(md, m.ord + 1), !.ord = @ + 1]

Doc(m) == m.docs[Last(m.fl).doc]
Sections(m) == Doc(m).secs
Level(m) == Len(Sections(m))

RECURSIVE UpdateAll(_, _)
UpdateAll(a, s) == IF s = <<>> THEN a ELSE UpdateAll(Update(a, Head(s)), Tail(s))
CurrentMode(m) == UpdateAll(Update(m.src, Last(Sections(m)).src), m.tag)

\* ---- ids
Placeholder(id, cat, parent, ids) ==
    [id |-> id, cat |-> cat, parent |-> parent,
     unres |-> IF parent = 0 THEN id ELSE ids[parent].unres \o "." \o id,
     dots |-> CountDots(id, 1) + (IF parent = 0 THEN 0 ELSE ids[parent].dots + 1)]
AddPh(m, id, cat, parent) == [m EXCEPT !.ids = Append(@, Placeholder(id, cat, parent, m.ids))]
\* (the new id is always number Len(m.ids))

NoSection == [none |-> TRUE]
SectionPh(m, sec) == LET f == Last(m.fl) IN
    IF "none" \in DOMAIN sec THEN 0
    ELSE IF sec.fd < f.odepth THEN f.oid ELSE sec.ph16

\* `fv`: the compatibility version of the file the id is written in
AddIdTo(m, id, cat, sec, fv, doc11) ==
    LET part == IF fv >= 106 /\ cat < ExplicitId THEN NormalizeId(id, 32) ELSE id
        p == IF m.fl = <<>> THEN 0 ELSE SectionPh(m, sec)
    IN IF "none" \in DOMAIN sec THEN AddPh(m, part, cat, p)
       ELSE IF sec.cv >= 106 THEN AddPh(m, part, cat, p)
       ELSE LET a == IF p = 0 THEN doc11 ELSE ""
                b == a \o (IF a # "" /\ sec.id11 # "" THEN "." ELSE "") \o sec.id11
                c == b \o (IF b # "" /\ part # "" THEN "." ELSE "") \o part
            IN AddPh(m, c, cat, p)
AddId(m, id, cat) == LET f == Last(m.fl) IN AddIdTo(m, id, cat, Last(Sections(m)), f.cv, f.doc11)

NewSection(m, eid, id, cat, src) ==
    LET f == Last(m.fl)
        secs == Sections(m)
        parent == IF secs = <<>> THEN NoSection ELSE Last(secs)
        id11 == IF secs # <<>> /\ f.cv < 106
                THEN parent.id11 \o (IF parent.id11 # "" /\ id # "" THEN "." ELSE "") \o id ELSE ""
        pp == SectionPh(m, parent)
        m1 == IF f.cv >= 106 THEN AddIdTo(m, id, cat, parent, f.cv, f.doc11)
              ELSE IF f.cv >= 103
              THEN AddPh(m, (IF pp = 0 THEN f.doc11 \o (IF id11 # "" THEN "." ELSE "") ELSE "") \o id11, cat, pp)
              ELSE AddPh(m, (IF secs # <<>> /\ pp = 0 THEN f.doc11 \o "." ELSE "") \o id, cat, pp)
        ph16 == IF f.cv >= 106 THEN Len(m1.ids) ELSE pp
        sec == [cv |-> f.cv, fd |-> f.depth, eid |-> eid, id11 |-> id11, ph16 |-> ph16, src |-> src]
    IN [m1 EXCEPT !.docs[f.doc].secs = Append(@, sec)]

\* A file begins: it is the root of a document, or part of the current one.
StartFile(m, cv, root, incid, id, hastitle, title) ==
    LET parent == IF m.fl = <<>> THEN 0 ELSE Len(m.fl)
        docs == IF root THEN Append(m.docs, [secs |-> <<>>, title11 |-> "", sec11 |-> ""]) ELSE m.docs
        doc == IF root THEN Len(docs) ELSE m.fl[parent].doc
        initial == IF root \/ cv >= 106 \/ m.fl[parent].cv >= 106
                   THEN (IF incid # "" THEN incid ELSE id)
                   ELSE (IF id # "" THEN id ELSE incid)
        setdoc == root \/ cv < 106
        title11 == IF setdoc /\ hastitle THEN title ELSE docs[doc].title11
        doc11 == IF setdoc THEN (IF initial # "" THEN initial ELSE Identifier(title11)) ELSE m.fl[parent].doc11
        m1 == [m EXCEPT !.docs = [docs EXCEPT ![doc].title11 = title11]]
    IN IF root
       THEN LET f == [cv |-> cv, depth |-> 0, odepth |-> 0, oid |-> 0, doc11 |-> doc11, doc |-> doc]
                m2 == [m1 EXCEPT !.fl = Append(@, f)]
                md == Mode("c++", 0)
            IN IF initial # "" THEN NewSection(m2, "", initial, ExplicitSectionId, md)
               ELSE IF hastitle /\ title # "" THEN NewSection(m2, "", Identifier(title), DocId, md)
               ELSE IF cv >= 106 THEN NewSection(m2, "", "doc", NumberedId, md)
               ELSE NewSection(m2, "", "", DocId, md)
       ELSE LET over == initial # "" /\ cv >= 106
                pf == m.fl[parent]
                m2 == IF over THEN AddIdTo(m1, initial, ExplicitSectionId, NoSection, pf.cv, pf.doc11) ELSE m1
                f == [cv |-> cv, depth |-> pf.depth + 1, odepth |-> IF over THEN pf.depth + 1 ELSE pf.odepth,
                      oid |-> IF over THEN Len(m2.ids) ELSE pf.oid, doc11 |-> doc11, doc |-> doc]
            IN [m2 EXCEPT !.fl = Append(@, f)]

\* ---- templates
Scope(m) == Len(m.sc)
RECURSIVE FindIn(_, _, _)
FindIn(sc, i, name) == IF i = 0 THEN 0 ELSE IF name \in DOMAIN sc[i].syms THEN i ELSE FindIn(sc, sc[i].parent, name)
PushScope(m) == [m EXCEPT !.sc = Append(@, [syms |-> <<>>, parent |-> Len(m.sc), p14 |-> m.p14]),
                          !.p14 = Len(m.sc) + 1]
PopScope(m) == [m EXCEPT !.p14 = Last(m.sc).p14, !.sc = Front(@)]
AddTemplate(m, name, t) == [m EXCEPT !.sc = SetLast(@, [Last(@) EXCEPT !.syms = @ @@ (name :> t)])]

Saved(m) == [v |-> m.v, imp |-> m.imp, file |-> m.file, abs |-> m.abs, off |-> m.off, src |-> m.src, td |-> m.td, idep |-> m.idep, ms |-> m.ms, mac |-> m.mac]
Restore(m, s, macros, scope) ==
    LET m1 == [m EXCEPT !.v = s.v, !.imp = s.imp, !.file = s.file, !.abs = s.abs, !.off = s.off, !.src = s.src, !.td = s.td, !.idep = s.idep, !.ms = s.ms]
        m2 == IF scope THEN PopScope(m1) ELSE m1
    IN IF macros THEN [m2 EXCEPT !.mac = s.mac] ELSE m2

\* a call with several arguments inside markup
RECURSIVE HasDots(_)
HasDots(in) == \E i \in 1..Len(in) :
    LET x == in[i] IN
    \/ x.k = "call" /\ (Len(x.args) > 1 \/ \E j \in 1..Len(x.args) : HasDots(x.args[j].body))
    \/ "in" \in DOMAIN x /\ HasDots(x["in"])
    \/ "el" \in DOMAIN x /\ HasDots(<<x.el>>)
    \/ x.k \in {"adm", "tpl"} /\ HasDots(x.body)
    \/ x.k = "list" /\ \E j \in 1..Len(x.cells) : HasDots(x.cells[j])
    \/ x.k = "table" /\ \E j \in 1..Len(x.rows) : \E l \in 1..Len(x.rows[j]) : HasDots(x.rows[j][l])
    \/ x.k = "vlist" /\ \E j \in 1..Len(x.entries) :
           HasDots(x.entries[j].term) \/ \E l \in 1..Len(x.entries[j].cells) : HasDots(x.entries[j].cells[l])

RECURSIVE HasTpl(_)
HasTpl(body) == \E i \in 1..Len(body) :
    LET x == body[i] IN
    x.k = "tpl" \/ ("el" \in DOMAIN x /\ HasTpl(<<x.el>>)) \/ ("in" \in DOMAIN x /\ HasTpl(x["in"]))
\* white space separated arguments
RECURSIVE FirstSpace(_, _)
FirstSpace(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i].k = "s" THEN i ELSE FirstSpace(s, i + 1)
RECURSIVE BreakArgs(_, _)
BreakArgs(args, n) ==
    IF Len(args) >= n THEN args
    ELSE LET l == Last(args)
             i == FirstSpace(l.body, 1)
         IN IF i = 0 \/ i = Len(l.body) THEN args
            ELSE BreakArgs(Front(args) \o <<[l EXCEPT !.body = SubSeq(@, 1, i - 1)],
                                            [k |-> "phrase", body |-> SubSeq(l.body, i + 1, Len(l.body))]>>, n)
ArgsFor(m, args, n) == IF (m.v < 105 /\ args # <<>>) \/ Len(args) = 1 THEN BreakArgs(args, n) ELSE args

\* ---- macros
\* The name that a use of a macro at position i of a word would be: the
\* longest one, and only if no letter or '_' follows it.
MacroAt(mac, s, i) ==
    LET c == {n \in DOMAIN mac : i + Len(n) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(n) - 1) = n}
        l == CHOOSE n \in c : \A x \in c : Len(n) >= Len(x)
    IN IF c = {} THEN ""
       ELSE LET j == i + Len(l) IN
            IF j <= Len(s) /\ (IsAlpha(Ch(s, j)) \/ Ch(s, j) = "_") THEN "" ELSE l
RECURSIVE Expand(_, _, _, _)
Expand(mac, s, i, from) ==
    LET text == IF from < i THEN <<W(SubSeq(s, from, i - 1))>> ELSE <<>>
    IN IF i > Len(s) THEN text
       ELSE LET n == MacroAt(mac, s, i) IN
            IF n = "" THEN Expand(mac, s, i + 1, from)
            ELSE text \o mac[n] \o Expand(mac, s, i + Len(n), i + Len(n))

\* ---- lists
StartList(m, mark) ==
    LET m1 == [PushTag(m, m.nxt) EXCEPT !.nxt = NoMode]
        m2 == PushOut(Anchors(m1, IF m1.inl THEN "ph" ELSE "out"))
    IN [Out(m2, <<Open(IF mark = "#" THEN "orderedlist" ELSE "itemizedlist")>>) EXCEPT !.inl = TRUE]
EndList(m, mark) ==
    LET m1 == Out(Anchors(m, "out"), <<Close(IF mark = "#" THEN "orderedlist" ELSE "itemizedlist")>>)
        o == Last(m1.out)
        m2 == PopOut(m1)
    IN PopTag(To(m2, IF m2.inl THEN "ph" ELSE "out", o))
\* A list item or nested block has to close the sections opened in it, and may
\* not close others; `ms` is what to return to.
EndSections(m, ms) ==
    LET m1 == IF Level(m) > m.ms THEN [Err(m) EXCEPT !.docs[Last(m.fl).doc].secs = SubSeq(@, 1, m.ms)] ELSE m
    IN [m1 EXCEPT !.ms = ms]
StartItem(m) == LET m1 == Anchors(Out(m, <<Open("listitem")>>), "ph")
                IN [m1 EXCEPT !.ls = SetLast(@, [Last(@) EXCEPT !.ms = m.ms]), !.ms = Level(m)]
EndItem(m) == Out(EndSections(Flush(Anchors(m, "ph")), Last(m.ls).ms), <<Close("listitem")>>)

LsTop(m) == Last(m.ls)
CloseItemAndList(m) == EndList(EndItem(m), LsTop(m).mark)
PopLs(m) == [m EXCEPT !.ls = Front(@)]
RECURSIVE ClearLists(_)
ClearLists(m) == IF LsTop(m).ty = "list" THEN ClearLists(PopLs(CloseItemAndList(m))) ELSE m
RECURSIVE CloseDeeper(_, _, _)
CloseDeeper(m, ind, track) ==
    IF LsTop(m).ty = "list" /\ ind < LsTop(m).ind
    THEN LET m1 == PopLs(CloseItemAndList(m)) IN
         CloseDeeper(IF track THEN [m1 EXCEPT !.lind = LsTop(m1).ind] ELSE m1, ind, track)
    ELSE m

\* A line that does not start with a list mark; result <<machine, what it is>>
PlainBlock(m, ind) ==
    IF m.v >= 106
    THEN LET top == LsTop(m)
             r == IF ind > top.ind2
                  THEN <<m, IF top.ty # "nested" THEN "code" ELSE "para">>
                  ELSE LET m1 == CloseDeeper(m, ind, TRUE)
                           t1 == LsTop(m1)
                           aligned == t1.ty = "list" /\ ind = t1.ind
                           below == m1.ls[Len(m1.ls) - 1]
                           m2 == IF aligned /\ ind <= below.ind2
                                 THEN LET c == PopLs(CloseItemAndList(m1)) IN [c EXCEPT !.lind = LsTop(c).ind]
                                 ELSE m1
                       IN <<m2, "para">>
         IN IF m.v = 106 /\ LsTop(r[1]).ty = "list" THEN <<Err(r[1]), r[2]>> ELSE r
    ELSE LET m1 == ClearLists(m) IN <<m1, IF LsTop(m1).ty # "nested" /\ ind > 0 THEN "code" ELSE "para">>

\* No more lines
\* (as if an empty paragraph followed, which uses up a one-shot mode)
EndBlocks(m) == LET r == PlainBlock(m, 0)
                    p == IF r[2] = "para" THEN [Flush(r[1]) EXCEPT !.nxt = NoMode] ELSE r[1]
                IN PopLs(ClearLists(p))

\* A line that starts with a list mark
ListBlock(m, ind, mark) ==
    IF LsTop(m).ty = "top" /\ ind > 0 THEN <<m, "code">>
    ELSE LET m1 == IF LsTop(m).ty # "list" \/ ind > m.lind
                   THEN StartList([m EXCEPT !.ls = Append(@, [ty |-> "list", ind |-> ind, ind2 |-> ind + 2, mark |-> mark, ms |-> 0])], mark)
                   ELSE IF ind = m.lind THEN EndItem(m)
                   ELSE EndItem(CloseDeeper(m, ind, FALSE))
             m2 == [m1 EXCEPT !.lind = ind]
             m3 == IF mark # LsTop(m2).mark THEN Err(m2) ELSE m2
         IN <<StartItem(m3), "list">>

\* ---- code blocks
Span(role, toks) == <<Open("phrase"), Attr("role", role)>> \o toks \o <<Close("phrase")>>
Piece(role, s) == Span(role, <<W(s)>>)
\* `int def` in each mode
Probe(md) == IF md = "c++" THEN Piece("keyword", "int") \o <<Sp>> \o Piece("identifier", "def")
             ELSE IF md = "python" THEN Piece("identifier", "int") \o <<Sp>> \o Piece("keyword", "def")
             ELSE <<W("int"), Sp, W("def")>>
Plain(x) == x.k = "s" \/ (x.k = "w" /\ \A i \in 1..Len(x.s) : IsAlpha(Ch(x.s, i)) \/ IsDigit(Ch(x.s, i)) \/ Ch(x.s, i) = "_")
CodeWord(m, x) == Plain(x) /\ (x.k = "w" => Expand(m.mac, x.s, 1, 1) = <<W(x.s)>>)
ProbeText == <<[k |-> "w", s |-> "int"], [k |-> "s"], [k |-> "w", s |-> "def"]>>
RECURSIVE WordCode(_, _)
WordCode(in, md) ==
    IF in = <<>> THEN <<>>
    ELSE (IF Head(in).k = "s" THEN <<Sp>>
          ELSE IF md = "teletype" THEN <<W(Head(in).s)>> ELSE Piece("identifier", Head(in).s)) \o WordCode(Tail(in), md)
LineCode(b, md) ==
    <<Sp>> \o (IF b.k = "probe" THEN Probe(md)
               ELSE (IF b.mark = "" THEN <<>>
                     ELSE IF md = "teletype" THEN <<W(b.mark), Sp>>
                     ELSE IF b.mark # "#" THEN Piece("special", b.mark) \o <<Sp>>
                     ELSE IF md = "c++" THEN Span("preprocessor", <<W("#"), Sp, W(b.in[1].s)>>)
                     ELSE Span("comment", <<W("#"), Sp>> \o Concat([i \in 1..Len(b.in) |-> IF b.in[i].k = "s" THEN <<Sp>> ELSE <<W(b.in[i].s)>>])))
                    \o WordCode(IF b.mark # "#" \/ md = "teletype" THEN b.in ELSE IF md = "c++" THEN Tail(b.in) ELSE <<>>, md))
\* a list line that is followed directly by the next one
Tight(h, rest) == h.mark # "" /\ "tight" \in DOMAIN h /\ h.tight /\ rest # <<>> /\ Head(rest).k = "line" /\ Head(rest).mark # ""
RECURSIVE CodeRun(_, _)
\* how many of the following lines belong to the code block
CodeRun(todo, ind2) == IF todo # <<>> /\ Head(todo).k \in {"line", "probe"} /\ Head(todo).ind > ind2
                       THEN 1 + CodeRun(Tail(todo), ind2) ELSE 0
CodeBlock(m, toks(_)) ==
    IF ~m.cond THEN m
    ELSE LET md == IF m.nxt # NoMode THEN m.nxt ELSE CurrentMode(m).md
             m1 == Anchors(Flush([m EXCEPT !.nxt = NoMode]), "out")
         IN Out(m1, Last(m1.ph) \o <<Open("programlisting")>> \o toks(md) \o <<Close("programlisting")>>)

\* ---- elements
\* Entering and leaving a square bracket element
BlockTypes == {"section", "cond_or_block", "nested"}
Enter(m, ty) ==
    LET m1 == IF ty \in BlockTypes THEN Flush(m) ELSE m IN
    IF m1.nxt # NoMode /\ ty # "maybe" THEN [PushTag(m1, m1.nxt) EXCEPT !.nxt = NoMode] ELSE m1
Pushed(m, ty) == m.nxt # NoMode /\ ty # "maybe"
\* run `body`, capturing the results of its `cap` parts, then `act`
Do(m, ty, body, act, rest) ==
    [Enter(m, ty) EXCEPT !.todo = body \o <<act, [k |-> "leave", pop |-> Pushed(m, ty)]>> \o rest]
Cap(body) == <<[k |-> "cap"]>> \o body \o <<[k |-> "endcap"]>>
Caps(bodies) == Concat([i \in 1..Len(bodies) |-> Cap(bodies[i])])
Nested(blocks) == <<[k |-> "nest"]>> \o blocks \o <<[k |-> "endnest"]>>
CapBlocks(blocks) == <<[k |-> "cap"]>> \o Nested(blocks) \o <<[k |-> "endcap"]>>
CapCells(cells) == Concat([i \in 1..Len(cells) |-> CapBlocks(cells[i])])
ListCells(cells) == Concat([i \in 1..Len(cells) |-> <<[k |-> "expl"]>> \o CapBlocks(cells[i])])

FmtTags == [bold |-> <<Open("emphasis"), Attr("role", "bold")>>, ital |-> <<Open("emphasis")>>,
            under |-> <<Open("emphasis"), Attr("role", "underline")>>,
            strike |-> <<Open("emphasis"), Attr("role", "strikethrough")>>,
            tele |-> <<Open("literal")>>, quote |-> <<Open("quote")>>, repl |-> <<Open("replaceable")>>]
NestTag(t) == IF t = "blurb" THEN "sidebar" ELSE t

\* sequence of values captured by the current element (n of them)
TakeVals(m, n) == SubSeq(m.vals, Len(m.vals) - n + 1, Len(m.vals))
DropVals(m, n) == [m EXCEPT !.vals = SubSeq(@, 1, Len(@) - n)]

Bridgehead(m, level, content, self, id, hasid) ==
    LET lv == <<"sect1", "sect2", "sect3", "sect4", "sect5", "sect6">>[level]
        ra == Attr("renderas", lv)
    IN IF self /\ hasid
       THEN LET m1 == AddId(m, "h", NumberedId) IN
            Out(m1, <<Open("bridgehead"), ra, IdAttr("id", Len(m1.ids)), Open("phrase"), IdAttr("id", id), Close("phrase"),
                      Open("link"), IdAttr("linkend", id)>> \o content \o <<Close("link"), Close("bridgehead")>>)
       ELSE Out(m, <<Open("bridgehead"), ra, IdAttr("id", id)>> \o content \o <<Close("bridgehead")>>)

\* ---- file search
Found(w, p) == NormPath(p) \in DOMAIN w.files
RECURSIVE SearchInc(_, _, _, _)
\* <<dependencies, files found: <<path, abstract path>> >>.  The abstract path,
\* which __FILENAME__ shows, is relative to the main file or include directory.
SearchInc(w, dirs, p, deps) ==
    IF dirs = <<>> THEN <<deps, <<>> >>
    ELSE LET full == Head(dirs) \o "/" \o p IN
         IF Found(w, full) THEN <<deps \cup {<<NormPath(full), TRUE>>}, <<<<full, p, Len(w.opts.inc) - Len(dirs) + 1>>>> >>
         ELSE SearchInc(w, Tail(dirs), p, deps \cup {<<NormPath(full), FALSE>>})

\* wildcards: '*' and '?' (their full syntax is in module Glob)
HasWild(s) == \E i \in 1..Len(s) : Ch(s, i) \in {"*", "?"}
RECURSIVE Wild(_, _, _, _)
Wild(p, i, n, j) ==
    IF i > Len(p) THEN j > Len(n)
    ELSE CASE Ch(p, i) = "*" -> Wild(p, i + 1, n, j) \/ (j <= Len(n) /\ Wild(p, i, n, j + 1))
           [] Ch(p, i) = "?" -> j <= Len(n) /\ Wild(p, i + 1, n, j + 1)
           [] OTHER -> j <= Len(n) /\ Ch(p, i) = Ch(n, j) /\ Wild(p, i + 1, n, j + 1)
Comps(p) == NormComps(SplitPath(p, 1, ""), <<>>)
\* the files in directory `dir` that the pattern selects, relative to it
RECURSIVE Walk(_, _, _)
Walk(w, dir, ps) ==
    IF ps = <<>> THEN (IF JoinComps(dir) \in DOMAIN w.files THEN {<<>>} ELSE {})
    ELSE LET h == Head(ps)
             below == {c \in {Comps(x) : x \in DOMAIN w.files} : Len(c) > Len(dir) /\ SubSeq(c, 1, Len(dir)) = dir}
             names == IF HasWild(h) THEN {n \in {c[Len(dir) + 1] : c \in below} : Wild(h, 1, n, 1)} ELSE {h}
         IN UNION {{<<n>> \o r : r \in Walk(w, NormComps(Append(dir, n), <<>>), Tail(ps))} : n \in names}
Selected(w, dir, pat) == Walk(w, Comps(dir), SplitPath(pat, 1, ""))
\* in order of their names (the character order of the names used here)
CharOrder == "-./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
ChLess(a, b) == LastIndex(CharOrder, a, Len(CharOrder)) < LastIndex(CharOrder, b, Len(CharOrder))
StrLess(a, b) == \E i \in 0..Len(a) :
    /\ i < Len(b) /\ SubSeq(a, 1, i) = SubSeq(b, 1, i)
    /\ (i = Len(a) \/ ChLess(Ch(a, i + 1), Ch(b, i + 1)))
PathLess(a, b) == \E i \in 0..Len(a) :
    /\ i < Len(b) /\ SubSeq(a, 1, i) = SubSeq(b, 1, i)
    /\ (i = Len(a) \/ StrLess(a[i + 1], b[i + 1]))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : PathLess(x.key, y.key)
                  IN <<x>> \o Sorted(S \ {x})
Hits(w, dir, absdir, n, pat) ==
    {[key |-> SplitPath(absdir \o JoinComps(r), 1, "") \o <<ToString(n)>>, file |-> dir \o JoinComps(r), off |-> n, abs |-> absdir \o JoinComps(r)] :
        r \in Selected(w, dir, pat)}
GlobDep(w, dir, pat) ==
    {<<"g " \o NormPath(dir \o pat), TRUE>>} \cup {<<NormPath(dir \o JoinComps(r)), TRUE>> : r \in Selected(w, dir, pat)}

Search(w, m, p) ==
    LET local == DirOf(m.file) \o p
        inc(i) == w.opts.inc[i] \o "/"
    IN IF m.v >= 107 /\ HasWild(p)
       THEN LET s == Sorted(Hits(w, DirOf(m.file), DirOf(m.abs), m.off, p)
                            \cup UNION {Hits(w, inc(i), "", i, p) : i \in 1..Len(w.opts.inc)})
            IN <<GlobDep(w, DirOf(m.file), p) \cup UNION {GlobDep(w, inc(i), p) : i \in 1..Len(w.opts.inc)},
                 [i \in 1..Len(s) |-> <<s[i].file, s[i].abs, s[i].off>>]>>
       ELSE IF Found(w, local) THEN <<{<<NormPath(local), TRUE>>}, <<<<local, DirOf(m.abs) \o p, m.off>>>> >>
       ELSE SearchInc(w, w.opts.inc, p, {<<NormPath(local), FALSE>>})

LoadFile(m, w, p, ab, of, nested, incid, imp, rest) ==
    LET f == w.files[NormPath(p)]
        m1 == [m EXCEPT !.idep = IF nested THEN @ + 1 ELSE @, !.file = p, !.abs = ab, !.off = of, !.imp = imp, !.mac = PathMacro(ab) @@ @]
        end == [k |-> "loaded", s |-> Saved(m), level |-> IF nested THEN Level(m) ELSE 0, nested |-> nested, imp |-> imp,
                keep |-> nested /\ m.v < 106, macros |-> ~imp, scope |-> ~imp /\ m.v >= 106, fm |-> m.mac["__FILENAME__"]]
        m2 == IF ~nested THEN m1 ELSE IF imp THEN PushOut(m1) ELSE IF m.v >= 106 THEN PushScope(m1) ELSE m1
        \* reading the document information block
        m3 == LET a == IF f.doc /\ m.v >= 106 /\ ~(f.mode # NoMode /\ f.modepos = "before") THEN ChangeMode(m2, "c++") ELSE m2
              IN IF f.mode # NoMode
                 THEN (IF f.modepos = "before" THEN ChangeMode(m2, f.mode) ELSE ChangeMode(a, f.mode))
                 ELSE a
        use == f.doc /\ (~nested \/ m.v >= 106)
        nv == IF f.ver # 0 /\ (f.verpos = "before" \/ use) THEN f.ver ELSE 0
        v == IF nv # 0 THEN nv ELSE IF use THEN 101 ELSE m.v
        ncv == IF f.cver # 0 /\ use THEN f.cver ELSE 0
        cv == IF ncv # 0 THEN ncv ELSE IF use THEN v ELSE Last(m.fl).cv
        m4a == StartFile([m3 EXCEPT !.v = v], cv, use, incid, f.id, f.doc, f.title)
        \* a document has its own sections, an import may not touch the importer's
        m4 == IF use \/ imp THEN [m4a EXCEPT !.ms = Level(m4a)] ELSE m4a
        m5 == IF use
              THEN Out(m4, <<Open("article"), IdAttr("id", Len(m4.ids)),
                             Attr("last-revision", "DEBUG MODE Date: 2000/12/20 12:00:00 $"),
                             Attr("xmlns:xi", "http://www.w3.org/2001/XInclude"),
                             Open("title"), W(f.title), Close("title")>>)
              ELSE m4
        m6 == [m5 EXCEPT !.ls = Append(@, [ty |-> "top", ind |-> 0, ind2 |-> 0, mark |-> ""])]
    IN IF m.err > 0 THEN [m2 EXCEPT !.todo = <<end>> \o rest]
       ELSE [m6 EXCEPT !.todo = f.body \o <<[k |-> "endblocks"], [k |-> "post", use |-> use], end>> \o rest]

DropSections(m, n) == [m EXCEPT !.docs[Last(m.fl).doc].secs = SubSeq(@, 1, n)]
CloseSections(m) == LET n == Level(m) - 1 IN
    [Out(m, [i \in 1..n |-> Close("section")]) EXCEPT !.docs[Last(m.fl).doc].secs = SubSeq(@, 1, 1)]

\* ---- steps
Step(w, m0) ==
    LET h == Head(m0.todo)
        rest == Tail(m0.todo)
        m == [m0 EXCEPT !.todo = rest]
    IN
    CASE h.k = "w" ->
           LET toks == Expand(m.mac, h.s, 1, 1) IN Ph(Anchors(m, "ph"), toks)
      [] h.k = "s" -> Ph(m, <<Sp>>)
      \* ---- control
      [] h.k = "cap" ->
           LET j == CHOOSE i \in 1..Len(rest) : /\ rest[i].k = "endcap"
                       /\ Cardinality({x \in 1..i : rest[x].k = "endcap"}) = 1 + Cardinality({x \in 1..i : rest[x].k = "cap"})
           IN [PushOut(m) EXCEPT !.anc = <<>>, !.ms = Level(m), !.todo = [rest EXCEPT ![j] = [k |-> "endcap", anc |-> m.anc, ms |-> m.ms]]]
      [] h.k = "endcap" ->
           LET blk == Last(m.out) # <<>>
               m1 == IF blk THEN Anchors(Flush(m), "out") ELSE Anchors(m, "ph")
               val == IF blk THEN Last(m1.out) ELSE Last(m1.ph)
           IN [PopOut(EndSections(m1, h.ms)) EXCEPT !.vals = Append(@, val), !.anc = h.anc]
      [] h.k = "leave" -> IF h.pop THEN PopTag(m) ELSE m
      [] h.k = "expl" -> [m EXCEPT !.expl = TRUE]
      [] h.k = "nest" ->
           [m EXCEPT !.inl = m.expl, !.expl = FALSE, !.ms = Level(m),
                     !.ls = Append(@, [ty |-> "nested", ind |-> 0, ind2 |-> 0, mark |-> "", ms |-> m.ms])]
      [] h.k = "endnest" ->
           LET m1 == IF m.v < 107 THEN ClearLists(Flush(m)) ELSE EndBlocks(m)
               ms == m.ls[CHOOSE i \in 1..Len(m.ls) : m.ls[i].ty = "nested" /\ \A j \in (i + 1)..Len(m.ls) : m.ls[j].ty = "list"].ms
           IN EndSections(IF m.v < 107 THEN PopLs(m1) ELSE m1, ms)
      [] h.k = "endblocks" -> EndBlocks(m)
      [] h.k = "untag" -> PopTag(m)
      [] h.k = "flush" -> Flush(m)
      \* ---- lines and blocks
      [] h.k \in {"line", "probe", "blk"} ->
           IF LsTop(m).ty = "nested" /\ m.v < 107
           THEN \* no block structure inside elements before 1.7
                IF h.k = "line"
                THEN [m EXCEPT !.todo = (IF h.mark = "" THEN <<>> ELSE <<[k |-> "w", s |-> h.mark], [k |-> "s"]>>)
                                        \o h.in \o <<[k |-> IF Tight(h, rest) THEN "s" ELSE "flush"]>> \o rest]
                ELSE IF h.k = "probe"
                THEN [m EXCEPT !.todo = ProbeText \o <<[k |-> "flush"]>> \o rest]
                ELSE IF h.el.k \in {"def", "tpl", "head", "include", "import", "sec", "endsec"}
                THEN \* not markup here
                     [m EXCEPT !.un = TRUE, !.todo = <<>>]
                ELSE [m EXCEPT !.todo = <<h.el, [k |-> "flush"]>> \o rest]
           ELSE
           LET r == IF h.k = "line" /\ h.mark # "" THEN ListBlock(m, h.ind, h.mark) ELSE PlainBlock(m, h.ind)
               b == r[1]
               n == CodeRun(rest, LsTop(b).ind2)
               lines == <<h>> \o SubSeq(rest, 1, n)
           IN IF r[2] = "list" THEN [b EXCEPT !.todo = h.in \o rest]
              ELSE IF r[2] = "code"
              THEN IF \E i \in 1..Len(lines) : lines[i].k = "line" /\ \E j \in 1..Len(lines[i].in) : ~CodeWord(m, lines[i].in[j])
                   THEN [b EXCEPT !.un = TRUE, !.todo = <<>>]
                   ELSE LET C(md) == Concat([i \in 1..Len(lines) |-> LineCode(lines[i], md)])
                   IN [CodeBlock(b, C) EXCEPT !.todo = SubSeq(rest, n + 1, Len(rest))]
              ELSE LET p == [PushTag(Flush(b), b.nxt) EXCEPT !.nxt = NoMode]
                   IN [p EXCEPT !.todo = (IF h.k = "line" THEN h.in ELSE IF h.k = "probe" THEN ProbeText ELSE <<h.el>>)
                                         \o <<[k |-> "untag"], [k |-> "flush"]>> \o rest]
      \* ---- phrases
      [] h.k = "fmt" -> Do(m, "phrase", Cap(h.in), [k |-> "fmt!", f |-> h.f], rest)
      [] h.k = "fmt!" ->
           LET t == FmtTags[h.f]  m1 == DropVals(m, 1) IN
           IF ~m.cond THEN m1
           ELSE Ph(Anchors(m1, "ph"), t \o Last(m.vals) \o <<Close(t[1][2])>>)
      [] h.k = "foot" -> Do(m, "phrase", Cap(h.in), [k |-> "foot!"], rest)
      [] h.k = "foot!" ->
           LET m1 == DropVals(m, 1)  m2 == AddId(Anchors(m1, "ph"), "f", NumberedId) IN
           IF ~m.cond THEN m1
           ELSE Ph(m2, <<Open("footnote"), IdAttr("id", Len(m2.ids)), Open("para")>> \o Last(m.vals)
                       \o <<Close("para"), Close("footnote")>>)
      [] h.k = "link" -> Do(m, "phrase", Cap(h.in), [k |-> "link!", dst |-> h.dst], rest)
      [] h.k = "link!" ->
           LET m1 == DropVals(m, 1) IN
           IF ~m.cond THEN m1
           ELSE Ph(Anchors(m1, "ph"), <<Open("link"), Attr("linkend", h.dst)>>
                     \o (IF Last(m.vals) = <<>> THEN <<W(h.dst)>> ELSE Last(m.vals)) \o <<Close("link")>>)
      [] h.k = "anchor" -> Do(m, "maybe", <<>>, [k |-> "anchor!", id |-> h.id], rest)
      [] h.k = "anchor!" ->
           \* (since 1.6 the id is read like text, which a one-shot mode can't apply to)
           LET mn == IF m.v >= 106 THEN [m EXCEPT !.nxt = NoMode] ELSE m IN
           IF ~m.cond THEN mn
           ELSE LET m1 == AddPh(mn, h.id, AnchorId, 0) IN [m1 EXCEPT !.anc = Append(@, Len(m1.ids))]
      [] h.k = "icode" ->
           IF ~m.cond THEN m
           ELSE LET md == IF m.nxt # NoMode THEN m.nxt ELSE CurrentMode(m).md
                    m1 == Anchors([m EXCEPT !.nxt = NoMode], "ph")
                IN Ph(m1, <<Open("code")>> \o Probe(md) \o <<Close("code")>>)
      [] h.k = "mode" -> Do(m, "phrase", <<>>, [k |-> "mode!", md |-> h.md], rest)
      [] h.k = "mode!" -> IF m.cond THEN ChangeMode(m, h.md) ELSE m
      [] (h.k = "nmode" /\ m.v < 107) \/ (h.k = "cond" /\ h.neg /\ m.v < 107) -> [m EXCEPT !.un = TRUE, !.todo = <<>>]
      [] h.k = "nmode" -> Do(m, "maybe", <<>>, [k |-> "nmode!", md |-> h.md], rest)
      [] h.k = "nmode!" -> IF m.cond THEN [m EXCEPT !.nxt = h.md] ELSE m
      [] h.k = "cond" ->
           LET m1 == Enter(m, "phrase")
               live == (h.name \in DOMAIN m1.mac) = ~h.neg
               dead == m1.cond /\ ~live
               m2 == IF dead THEN [PushOut(m1) EXCEPT !.anc = <<>>, !.cond = FALSE] ELSE m1
           IN [m2 EXCEPT !.todo = <<[k |-> "s"]>> \o h.in \o <<[k |-> "endcond", dead |-> dead, anc |-> m1.anc],
                                            [k |-> "leave", pop |-> Pushed(m, "phrase")]>> \o rest]
      [] h.k = "endcond" -> IF h.dead THEN [PopOut(m) EXCEPT !.anc = h.anc, !.cond = TRUE] ELSE m
      \* ---- definitions
      [] h.k = "def" -> Do(m, "cond_or_block", Cap(h.in), [k |-> "def!", name |-> h.name], rest)
      [] h.k = "def!" ->
           LET m1 == DropVals(m, 1) IN
           IF ~m.cond \/ (m.v < 106 /\ h.name \in DOMAIN m.mac) THEN m1
           ELSE [m1 EXCEPT !.mac = (h.name :> Last(m.vals)) @@ @]
      [] h.k = "tpl" -> Do(m, "cond_or_block", <<>>, [h EXCEPT !.k = "tpl!"], rest)
      [] h.k = "tpl!" ->
           IF ~m.cond THEN m
           ELSE IF h.name \in DOMAIN Last(m.sc).syms THEN Err(m)
           ELSE \* (the white space after the parameters belongs to the body)
                AddTemplate(m, h.name, [params |-> h.params, kind |-> h.kind,
                                        body |-> IF h.kind = "phrase" THEN <<[k |-> "s"]>> \o h.body ELSE h.body,
                                        scope |-> Scope(m), ver |-> m.v])
      [] h.k = "call" ->
           LET i == FindIn(m.sc, Scope(m), h.name)
               t == m.sc[i].syms[h.name]
               args == ArgsFor(m, h.args, Len(t.params))
           IN IF \/ m.v < 105 /\ \E j \in 1..Len(h.args) : HasDots(h.args[j].body)
                 \* what looks like a call, or a definition, when the arguments are split
                 \/ m.v < 107 /\ \E j \in 1..Len(h.args) : h.args[j].k = "block" /\ (w.opts.strict \/ HasTpl(h.args[j].body))
                 \/ i # 0 /\ Len(h.args) < Len(t.params) /\ (m.v < 105 \/ Len(h.args) = 1) /\ h.args # <<>>
                       /\ \E x \in 1..Len(Last(h.args).body) : (Last(h.args).body[x].k = "icode" \/ (m.v < 105 /\ Last(h.args).body[x].k \notin {"w", "s"}))
                 \* an error, after which the rest of the line is read as a new block
                 \/ w.opts.strict /\ i = 0
              THEN [m EXCEPT !.un = TRUE, !.todo = <<>>]   \* ".." is not understood inside brackets
              ELSE IF i = 0
              THEN IF (\E j \in 1..Len(h.args) : h.args[j].k = "block") \/ \E x \in 1..Len(rest) : rest[x].k \in {"endcap", "endcond", "endcall"}
                   THEN \* the bracket would end the construct around it
                        [m EXCEPT !.un = TRUE, !.todo = <<>>]
                   ELSE [m EXCEPT !.todo = <<[k |-> "w", s |-> "["], [k |-> "w", s |-> h.name]>>
                     \o (IF h.args = <<>> THEN <<>> ELSE <<[k |-> "s"]>>)
                     \o Concat([j \in 1..Len(h.args) |-> (IF j = 1 THEN <<>> ELSE <<[k |-> "w", s |-> ".."]>>) \o h.args[j].body])
                     \o <<[k |-> "w", s |-> "]"]>> \o rest]
              ELSE IF ~m.cond THEN m
              ELSE IF Len(args) # Len(t.params) THEN Err(m)
              \* once an infinite loop was found nothing is expanded until it is left
              ELSE IF m.td > 0 /\ m.loop THEN m
              ELSE LET m1 == IF t.kind = "block" THEN Flush(m) ELSE m
                       caller == Scope(m1)
                       m2 == PushScope(m1)
                       m3 == IF t.ver >= 105
                             THEN [m2 EXCEPT !.p14 = Last(m2.sc).p14, !.sc = SetLast(@, [Last(@) EXCEPT !.parent = t.scope])]
                             ELSE [m2 EXCEPT !.sc = SetLast(@, [Last(@) EXCEPT !.parent = Last(m2.sc).p14])]
                       m4 == [m3 EXCEPT !.v = t.ver, !.td = @ + 1, !.loop = FALSE]
                       end(bad) == [k |-> "endcall", s |-> Saved(m1), bad |-> bad, kind |-> t.kind, ver |-> t.ver,
                                    out |-> Last(m4.out), ph |-> Last(m4.ph)]
                       dup == Cardinality({t.params[j] : j \in 1..Len(args)}) # Len(args)
                       m5 == [m4 EXCEPT !.ms = Level(m4),
                                        !.sc = SetLast(@, [Last(@) EXCEPT !.syms =
                                           [n \in {t.params[j] : j \in 1..Len(args)} |->
                                              LET j == CHOOSE x \in 1..Len(args) : t.params[x] = n
                                              IN [params |-> <<>>, kind |-> args[j].k, body |-> args[j].body,
                                                  scope |-> caller, ver |-> m1.v]]])]
                       m6 == IF t.ver < 107 THEN [m5 EXCEPT !.out = SetLast(@, <<>>), !.ph = SetLast(@, <<>>)] ELSE m5
                       body == IF t.kind = "block"
                               THEN <<[k |-> "blocks"]>> \o t.body \o <<[k |-> "endblocks"]>> ELSE t.body
                   IN IF m4.td > 100 \/ dup THEN [Err(m4) EXCEPT !.todo = <<end(TRUE)>> \o rest, !.loop = m4.td > 100]
                      ELSE [m6 EXCEPT !.todo = body \o <<end(FALSE)>> \o rest]
      [] h.k = "blocks" -> [m EXCEPT !.ls = Append(@, [ty |-> "top", ind |-> 0, ind2 |-> 0, mark |-> ""])]
      [] h.k = "endcall" ->
           LET wrong == ~h.bad /\ Level(m) # m.ms
               m1 == IF wrong THEN Err(m)
                     ELSE IF h.bad THEN m
                     ELSE IF h.ver < 107
                     THEN LET o == Last(m.out)  p == Last(m.ph)
                              b == [m EXCEPT !.out = SetLast(@, h.out), !.ph = SetLast(@, h.ph)]
                          IN IF h.kind = "block" \/ o # <<>>
                             THEN Flush(Ph(Out(Flush(b), o), p)) ELSE Ph(b, p)
                     ELSE IF h.kind = "block" THEN Flush(m) ELSE m
           IN Restore(m1, h.s, TRUE, TRUE)
      \* ---- sections and headings
      [] h.k = "sec" -> Do(m, "section", Cap(h.in), [k |-> "sec!", id |-> h.id, src |-> h.src], rest)
      [] h.k = "sec!" ->
           IF ~m.cond THEN DropVals(m, 1)
           ELSE LET id == IF h.id # "" THEN h.id ELSE Identifier(h.src)
                    cat == IF h.id # "" THEN ExplicitSectionId ELSE SectionId
                    m1 == [DropVals(m, 1) EXCEPT !.docs[Last(m.fl).doc].sec11 = id]
                    m2 == NewSection(m1, h.id, id, cat, CurrentMode(m1))
                    n == Len(m2.ids)
                    title == Last(m.vals)
                    m3 == Out(m2, <<Open("section"), IdAttr("id", n)>>)
                    m4 == Anchors(Out(m3, <<Open("title")>>), "out")
                    link == w.opts.selflink /\ Last(m.fl).cv >= 103 /\ ~HasLink(title)
                IN IF title = <<>> THEN m3
                   ELSE Out(m4, (IF link THEN <<Open("link"), IdAttr("linkend", n)>> \o title \o <<Close("link")>> ELSE title)
                                \o <<Close("title")>>)
      [] h.k = "endsec" -> Do(m, "section", <<>>, [k |-> "endsec!", id |-> h.id], rest)
      [] h.k = "endsec!" ->
           IF ~m.cond THEN m
           ELSE LET m1 == Anchors(m, "out") IN
                IF Level(m1) <= m1.ms THEN Err(m1)
                ELSE LET m2 == IF h.id # "" /\ h.id # Last(Sections(m1)).eid THEN Err(m1) ELSE m1
                     IN [Out(m2, <<Close("section")>>) EXCEPT !.docs[Last(m2.fl).doc].secs = Front(@)]
      \* no ids there in these versions: the text is something else
      [] (h.k = "head" /\ h.id # "" /\ m.v < 106) \/ (h.k = "table" /\ h.id # "" /\ m.v < 105) -> [m EXCEPT !.un = TRUE, !.todo = <<>>]
      [] h.k = "head" -> Do(m, "cond_or_block", Cap(h.in), [k |-> "head!", level |-> h.level, id |-> h.id, src |-> h.src], rest)
      [] h.k = "head!" ->
           LET m1 == Anchors(DropVals(m, 1), "out")
               content == Last(m.vals)
               level == IF h.level # 0 THEN h.level ELSE IF Level(m) + 1 > 6 THEN 6 ELSE Level(m) + 1
               cv == Last(m.fl).cv
               old == h.level # 0 /\ cv < 103
               self == w.opts.selflink
               m2 == IF h.id # "" THEN AddId(m1, h.id, ExplicitId)
                     ELSE IF cv >= 106 THEN AddId(m1, Identifier(h.src), HeadingId)
                     ELSE LET id == Identifier(Ser(content, 1, m.ids, "")) IN
                          IF old THEN AddPh(m1, Doc(m1).sec11 \o "." \o id, HeadingId, 0)
                          ELSE AddId(m1, id, HeadingId)
           IN IF ~m.cond THEN DropVals(m, 1)
              ELSE IF cv < 106 /\ h.id = "" /\ HasBlock(content) THEN [m EXCEPT !.un = TRUE, !.todo = <<>>]
              ELSE Bridgehead(m2, level, content, self /\ ~(h.id = "" /\ cv < 106 /\ old), Len(m2.ids), TRUE)
      \* ---- blocks with content
      [] h.k = "adm" -> Do(m, "nested", CapBlocks(h.body), [k |-> "adm!", t |-> h.t], rest)
      [] h.k = "adm!" ->
           LET m1 == DropVals(m, 1) IN
           IF ~m.cond THEN m1
           ELSE Out(Anchors(m1, "out"), <<Open(NestTag(h.t))>> \o (IF h.t = "blurb" THEN <<Attr("role", "blurb")>> ELSE <<>>)
                                        \o Last(m.vals) \o <<Close(NestTag(h.t))>>)
      [] h.k = "list" /\ m.v < 106 -> [m EXCEPT !.un = TRUE, !.todo = <<>>]
      [] h.k = "list" -> Do(m, "nested", ListCells(h.cells), [k |-> "list!", mark |-> h.mark, n |-> Len(h.cells)], rest)
      [] h.k = "list!" ->
           LET m1 == DropVals(m, h.n)
               t == IF h.mark = "#" THEN "orderedlist" ELSE "itemizedlist"
               vs == TakeVals(m, h.n)
           IN IF ~m.cond THEN m1
              ELSE Out(Anchors(m1, "out"), <<Open(t)>> \o Concat([i \in 1..h.n |-> <<Open("listitem")>> \o vs[i] \o <<Close("listitem")>>])
                                           \o <<Close(t)>>)
      [] h.k = "table" ->
           Do(m, "nested", (IF m.v >= 106 THEN Cap(h.in) ELSE <<>>) \o Concat([i \in 1..Len(h.rows) |-> CapCells(h.rows[i])]),
              [k |-> "table!", id |-> h.id, src |-> h.src, dim |-> [i \in 1..Len(h.rows) |-> Len(h.rows[i])], tv |-> m.v >= 106], rest)
      [] h.k = "table!" ->
           LET nrows == Len(h.dim)
               RECURSIVE Sum(_)
               Sum(i) == IF i = 0 THEN 0 ELSE h.dim[i] + Sum(i - 1)
               ncells == Sum(nrows)
               n == ncells + (IF h.tv THEN 1 ELSE 0)
               vs == TakeVals(m, n)
               off == IF h.tv THEN 1 ELSE 0
               title == IF h.tv THEN vs[1] ELSE IF h.src = "" THEN <<>> ELSE Words(h.src, 1, "")
               has == title # <<>>
               m1 == Anchors(DropVals(m, n), "out")
               cv == Last(m.fl).cv
               m2 == IF h.id # "" THEN AddId(m1, h.id, ExplicitId)
                     ELSE IF has THEN (IF cv >= 105 THEN AddId(m1, Identifier(h.src), GeneratedId)
                                       ELSE AddId(m1, "t", NumberedId))
                     ELSE m1
               ida == IF h.id # "" \/ has THEN <<IdAttr("id", Len(m2.ids))>> ELSE <<>>
               t == IF has THEN "table" ELSE "informaltable"
               Row(i) == <<Open("row")>> \o Concat([c \in 1..h.dim[i] |->
                             <<Open("entry")>> \o vs[off + Sum(i - 1) + c] \o <<Close("entry")>>]) \o <<Close("row")>>
               hd == IF nrows > 1 THEN <<Open("thead")>> \o Row(1) \o <<Close("thead")>> ELSE <<>>
               first == IF nrows > 1 THEN 2 ELSE 1
           IN IF ~m.cond THEN DropVals(m, n)
              ELSE Out(m2, <<Open(t), Attr("frame", "all")>> \o ida
                     \o (IF has THEN <<Open("title")>> \o title \o <<Close("title")>> ELSE <<>>)
                     \o <<Open("tgroup"), Attr("cols", IF nrows = 0 THEN "0" ELSE ToString(h.dim[nrows]))>> \o hd
                     \o <<Open("tbody")>> \o Concat([i \in 1..(nrows - first + 1) |-> Row(first + i - 1)])
                     \o <<Close("tbody"), Close("tgroup"), Close(t)>>)
      [] h.k = "vlist" ->
           Do(m, "nested", (IF m.v >= 106 THEN Cap(h.in) ELSE <<>>)
                \o Concat([i \in 1..Len(h.entries) |-> Cap(h.entries[i].term) \o CapCells(h.entries[i].cells)]),
              [k |-> "vlist!", src |-> h.src, dim |-> [i \in 1..Len(h.entries) |-> Len(h.entries[i].cells)], tv |-> m.v >= 106], rest)
      [] h.k = "vlist!" ->
           LET ne == Len(h.dim)
               RECURSIVE Sum(_)
               Sum(i) == IF i = 0 THEN 0 ELSE h.dim[i] + 1 + Sum(i - 1)
               off == IF h.tv THEN 1 ELSE 0
               n == Sum(ne) + off
               vs == TakeVals(m, n)
               m1 == Anchors(DropVals(m, n), "out")
               Entry(i) == LET b == off + Sum(i - 1) IN
                   <<Open("varlistentry"), Open("term")>> \o vs[b + 1] \o <<Close("term"), Open("listitem")>>
                   \o Concat([c \in 1..h.dim[i] |-> vs[b + 1 + c]]) \o <<Close("listitem"), Close("varlistentry")>>
           IN IF ~m.cond THEN DropVals(m, n)
              ELSE Out(m1, <<Open("variablelist"), Open("title")>> \o (IF h.src = "" THEN <<>> ELSE Words(h.src, 1, "")) \o <<Close("title")>>
                     \o Concat([i \in 1..ne |-> Entry(i)]) \o <<Close("variablelist")>>)
      \* ---- files
      [] h.k \in {"include", "import"} ->
           Do(m, "cond_or_block", <<>>, [k |-> "inc!", path |-> h.path, imp |-> h.k = "import", id |-> h.id], rest)
      [] h.k = "inc!" ->
           IF ~m.cond THEN m
           ELSE LET m1 == Anchors(m, "out")
                    r == Search(w, m1, h.path)
                    m2 == [m1 EXCEPT !.deps = @ \cup r[1]]
                IN IF r[2] = <<>> THEN (IF m.v >= 107 /\ HasWild(h.path) THEN m2 ELSE Err(m2))
                   ELSE IF m2.v >= 106 /\ m2.imp /\ ~h.imp THEN m2
                   ELSE IF m2.v < 106 /\ h.imp THEN m2   \* only code snippets are imported
                   ELSE [m2 EXCEPT !.todo = [i \in 1..Len(r[2]) |->
                            [k |-> "load", path |-> r[2][i][1], abs |-> r[2][i][2], off |-> r[2][i][3], nested |-> TRUE, incid |-> h.id, imp |-> h.imp]]
                            \o rest]
      [] h.k = "load" /\ h.nested /\ m.idep >= 100 -> Err(m)
      [] h.k = "load" -> LoadFile(m, w, h.path, h.abs, h.off, h.nested, h.incid, h.imp, rest)
      [] h.k = "post" ->
           LET m1 == IF h.use /\ Level(m) > 1
                     THEN CloseSections(IF w.opts.strict THEN Err(m) ELSE m) ELSE m
               m2 == [m1 EXCEPT !.fl = Front(@)]
           IN IF h.use THEN Out(m2, <<Close("article")>>) ELSE m2
      [] h.k = "loaded" ->
           IF ~h.nested THEN m
           ELSE LET m1 == IF h.imp THEN DropSections(PopOut(m), h.level) ELSE m
                    s == IF h.keep THEN [h.s EXCEPT !.src = m.src] ELSE h.s
                    m2 == Restore(m1, s, h.macros, h.scope)
                IN [m2 EXCEPT !.mac = ("__FILENAME__" :> h.fm) @@ @]

RECURSIVE Run(_, _)
Run(w, m) == IF m.todo = <<>> THEN m ELSE Run(w, Step(w, m))

\* ---- final output
\* ids in the order in which their attributes appear, parents first
RECURSIVE WithParents(_, _, _)
WithParents(ids, p, acc) ==
    IF p = 0 \/ p \in {acc[i] : i \in 1..Len(acc)} THEN acc
    ELSE Append(WithParents(ids, ids[p].parent, acc), p)
RECURSIVE Appearance(_, _, _, _)
Appearance(toks, i, ids, acc) ==
    IF i > Len(toks) THEN acc
    ELSE Appearance(toks, i + 1, ids, IF toks[i][1] = "i" THEN WithParents(ids, toks[i][3], acc) ELSE acc)

IsExplicit(ids, p) == ids[p].cat >= ExplicitId

FullId(ids, done, p) == IF ids[p].parent = 0 THEN ids[p].id ELSE done[ids[p].parent] \o "." \o ids[p].id

\* reserve the wanted ids: the highest category wins, then the first
RECURSIVE Reserve(_, _, _, _)
Reserve(ids, done, group, chosen) ==
    IF group = <<>> THEN chosen
    ELSE LET p == Head(group)
             id == FullId(ids, done, p)
         IN Reserve(ids, done, Tail(group),
                IF ids[p].cat <= NumberedId THEN chosen
                ELSE IF id \notin DOMAIN chosen THEN chosen @@ (id :> p)
                ELSE IF ids[p].cat > ids[chosen[id]].cat THEN (id :> p) @@ chosen
                ELSE chosen)

RECURSIVE Number(_, _, _, _)
Number(parent, base, n, used) ==
    LET postfix == ToString(n)
        id == parent \o base \o postfix
    IN IF Len(base) + Len(postfix) > 32
       THEN Number(parent, TrimDigits(SubSeq(base, 1, Len(base) - 1)), 0, used)
       ELSE IF id \in used THEN Number(parent, base, n + 1, used) ELSE id
Generate(full, used) ==
    LET dot == LastIndex(full, ".", Len(full))
        parent == SubSeq(full, 1, dot)
        base == NormalizeId(SubSeq(full, dot + 1, Len(full)), 31)
        b2 == IF base # "" /\ IsDigit(Ch(base, Len(base)))
              THEN (IF Len(base) < 31 THEN base \o "_" ELSE TrimDigits(base)) ELSE base
    IN Number(parent, b2, 0, used)

RECURSIVE Assign(_, _, _, _, _)
Assign(ids, done, group, wanted, chosen) ==
    IF group = <<>> THEN done
    ELSE LET p == Head(group)
             full == wanted[p]
             keep == ids[p].cat > NumberedId /\ chosen[full] = p
             id == IF keep THEN full ELSE Generate(full, DOMAIN chosen)
         IN Assign(ids, done @@ (p :> id), Tail(group), wanted, IF keep THEN chosen ELSE chosen @@ (id :> p))

RECURSIVE ByDots(_, _, _, _)
ByDots(ids, order, d, done) ==
    LET G == SelectSeq(order, LAMBDA p : ids[p].dots = d)
        group == SelectSeq(G, LAMBDA p : IsExplicit(ids, p)) \o SelectSeq(G, LAMBDA p : ~IsExplicit(ids, p))
        more == {i \in 1..Len(order) : ids[order[i]].dots > d}
        wanted == [p \in {group[i] : i \in 1..Len(group)} |-> FullId(ids, done, p)]
        done2 == Assign(ids, done, group, wanted, Reserve(ids, done, group, <<>>))
    IN IF more = {} THEN done2 ELSE ByDots(ids, order, d + 1, done2)

Resolve(m) == ByDots(m.ids, Appearance(m.out[1], 1, m.ids, <<>>), 0, <<>>)

\* the document as a sequence of strings: tags, @attributes, words
RECURSIVE Final(_, _, _, _, _)
Final(toks, i, done, word, acc) ==
    IF i > Len(toks) THEN (IF word = "" THEN acc ELSE Append(acc, word))
    ELSE LET t == toks[i]
             a == IF word = "" THEN acc ELSE Append(acc, word)
         IN CASE t[1] = "w" -> Final(toks, i + 1, done, word \o t[2], acc)
              [] t[1] = "s" -> Final(toks, i + 1, done, "", a)
              [] t[1] = "o" -> Final(toks, i + 1, done, "", Append(a, "<" \o t[2] \o ">"))
              [] t[1] = "c" -> Final(toks, i + 1, done, "", Append(a, "</" \o t[2] \o ">"))
              [] t[1] = "a" -> Final(toks, i + 1, done, "", Append(a, "@" \o t[2]))
              [] t[1] = "i" -> Final(toks, i + 1, done, "", Append(a, "@" \o t[2] \o "=\"" \o done[t[3]] \o "\""))
Result(m) == IF m.un THEN <<"unspecified">>
             ELSE IF m.err > 0 THEN <<"errors", ToString(m.err)>>
             ELSE Final(m.out[1], 1, Resolve(m), "", <<>>)
=============================================================================
