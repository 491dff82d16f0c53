-------------------------------- MODULE QbkGen --------------------------------
(* Every small document over an alphabet of markup: an author writes the      *)
(* files item by item, then the processor of Qbk runs on them.  The           *)
(* invariants are what the processor promises; each finished document is      *)
(* printed and run through the real program.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Alphabet, MaxItems, Versions, NFiles
Q == INSTANCE Qbk
VARIABLES w, m, phase
vars == <<w, m, phase>>

\* ---- markup
Word(s) == [k |-> "w", s |-> s]
Space == [k |-> "s"]
T(s) == <<Word(s)>>
T2(a, b) == <<Word(a), Space, Word(b)>>
Line(in) == [k |-> "line", ind |-> 0, mark |-> "", in |-> in]
Item(mark, ind, in) == [k |-> "line", ind |-> ind, mark |-> mark, in |-> in, tight |-> TRUE]
Ind(ind, in) == [k |-> "line", ind |-> ind, mark |-> "", in |-> in]
Probe(ind) == [k |-> "probe", ind |-> ind]
B(el) == [k |-> "blk", ind |-> 0, el |-> el]
Sec(id, t) == B([k |-> "sec", id |-> id, in |-> T(t), src |-> t])
End(id) == B([k |-> "endsec", id |-> id])
Head0(id, t) == B([k |-> "head", level |-> 0, id |-> id, in |-> T(t), src |-> t])
Head2(id, t) == B([k |-> "head", level |-> 2, id |-> id, in |-> T(t), src |-> t])
Def(n, v) == [k |-> "def", name |-> n, in |-> v]
Call(n, args) == [k |-> "call", name |-> n, args |-> args]
Arg(in) == [k |-> "phrase", body |-> in]
Tpl(n, ps, body) == B([k |-> "tpl", name |-> n, params |-> ps, kind |-> "phrase", body |-> body])
BTpl(n, ps, body) == B([k |-> "tpl", name |-> n, params |-> ps, kind |-> "block", body |-> body])
Cond(n, neg, in) == [k |-> "cond", name |-> n, neg |-> neg, in |-> in]
Foot(in) == [k |-> "foot", in |-> in]
Bold(in) == [k |-> "fmt", f |-> "bold", in |-> in]
Anchor(id) == [k |-> "anchor", id |-> id]
ModeOf(md) == [k |-> "mode", md |-> md]
NMode(md) == [k |-> "nmode", md |-> md]
ICode == [k |-> "icode"]
Adm(t, body) == B([k |-> "adm", t |-> t, body |-> body])
Table(id, t, rows) == B([k |-> "table", id |-> id, in |-> IF t = "" THEN <<>> ELSE T(t), src |-> t, rows |-> rows])
VList(t, es) == B([k |-> "vlist", in |-> IF t = "" THEN <<>> ELSE T(t), src |-> t, entries |-> es])
Entry(t, cells) == [term |-> T(t), cells |-> cells]
List(mark, cells) == B([k |-> "list", mark |-> mark, cells |-> cells])
Inc(p, id) == B([k |-> "include", path |-> p, id |-> id])
Imp(p) == B([k |-> "import", path |-> p, id |-> ""])

Items(v) ==
    CASE Alphabet = "ids" ->
           {Sec("", "x"), Sec("x", "y"), Head0("", "x"), Head2("", "x"), End(""), Line(T("w") \o <<Anchor("x")>>), Line(<<Foot(T("n"))>>)}
           \cup (IF v >= 105 THEN {Table("", "x", <<<<  <<Line(T("c"))>> >>>>)} ELSE {})
           \cup (IF v >= 106 THEN {Head0("x", "y"), B(Anchor("doc"))} ELSE {})
      [] Alphabet = "sections" ->
           {Sec("", "alpha"), Sec("ida", "beta"), End(""), Line(T("gamma")), Head0("", "delta"), BTpl("tpa", <<>>, <<Sec("", "kappa")>>),
            Line(<<Call("tpa", <<>>)>>)}
           \cup (IF v >= 107 THEN {End("ida")} ELSE {})
      [] Alphabet = "tsections" ->
           {Sec("", "alpha"), End(""), BTpl("tpa", <<>>, <<Line(T("x1")), End("")>>), BTpl("tpa", <<>>, <<Sec("", "beta"), End("")>>),
            BTpl("tpa", <<>>, <<Sec("", "kappa")>>), BTpl("tpb", <<>>, <<Sec("", "delta"), Line(<<Call("tpa", <<>>)>>)>>),
            BTpl("tpb", <<>>, <<Sec("", "gamma"), Line(<<Call("tpa", <<>>)>>), End("")>>), Line(<<Call("tpa", <<>>)>>), Line(<<Call("tpb", <<>>)>>)}
      [] Alphabet = "nsections" ->
           {Sec("", "alpha"), End(""), Line(T("gamma")), Adm("note", <<Sec("ida", "beta"), End("")>>), Adm("note", <<Sec("", "beta")>>),
            Adm("tip", <<End("")>>), Adm("note", <<Head0("", "delta"), Adm("tip", <<Sec("", "kappa"), Head0("", "x"), Line(T("y")), End("ida")>>), Sec("", "x"), Sec("", "z"), End(""), End("")>>),
            Table("", "", <<<<  <<Sec("", "a"), Line(T("b")), End("")>>, <<Line(T("c"))>> >>>>),
            Table("", "x", <<<<  <<Sec("", "a")>>, <<End("")>> >>>>),
            VList("", <<Entry("t", << <<Sec("", "a"), End("")>>, <<Sec("", "b"), Sec("", "c"), End("")>> >>)>>),
            List("*", << <<Sec("", "a"), End("")>>, <<End("")>> >>), Item("*", 0, T("x1")), Item("*", 2, T("x2")),
            BTpl("tpa", <<>>, <<Adm("note", <<End("")>>), Sec("", "delta"), Adm("note", <<Sec("", "kappa"), End("")>>), End("")>>), Line(<<Call("tpa", <<>>)>>),
            Adm("tip", <<Line(<<Call("tpa", <<>>)>>), End("")>>)}
      [] Alphabet = "scopes" ->
           {Tpl("pa", <<>>, T("Omega")), Tpl("tpa", <<"pa", "pb">>, <<Call("pa", <<>>), Word("x1"), Call("pb", <<>>)>>),
            Tpl("tpb", <<"pa">>, <<Call("tpa", <<Arg(<<Call("pa", <<>>)>>), Arg(T("gamma"))>>)>>),
            Tpl("tpb", <<"pb">>, <<Call("tpa", <<Arg(<<Call("pa", <<>>)>>), Arg(<<Call("pb", <<>>)>>)>>)>>),
            BTpl("tpb", <<"pa">>, <<Tpl("tpa", <<"pb">>, <<Call("pa", <<>>), Space, Call("pb", <<>>)>>), Line(<<Call("tpa", <<Arg(T("beta"))>>)>>)>>),
            Line(<<Call("tpb", <<Arg(T("kappa"))>>)>>), Line(<<Call("tpb", <<Arg(<<Call("pa", <<>>)>>)>>)>>),
            Line(<<Call("tpa", <<Arg(<<Call("pa", <<>>)>>), Arg(T("two2"))>>)>>)}
      [] Alphabet = "chain" ->
           {Line(T("MAC")), B(Def("MAC", T("alpha"))), Tpl("tpa", <<>>, T("beta")), Line(<<Call("tpa", <<>>)>>), B(ModeOf("python")), Line(<<ICode>>),
            Line(T("__FILENAME__"))}
      [] Alphabet = "macros" ->
           {B(Def("MAC", T("alpha"))), B(Def("MAC", T("beta"))), B(Def("NAME2", T("MAC"))), Line(T("MAC")), Line(T("NAME2")),
            Line(<<Word("x.MACx"), Space, Word("MAC9-MAC")>>), Line(<<Cond("MAC", FALSE, <<Def("NAME2", T("gamma"))>>)>>)}
      [] Alphabet = "templates" ->
           {Tpl("tpa", <<>>, T("alpha")), Tpl("tpa", <<"pa">>, T("beta") \o <<Space, Call("pa", <<>>)>>),
            Tpl("tpb", <<>>, <<Word("gamma"), Space, Call("tpa", <<>>)>>),
            BTpl("tpb", <<"tpa">>, <<Line(<<Word("delta"), Space, Call("tpa", <<>>)>>)>>),
            Line(<<Call("tpa", <<>>)>>), Line(<<Call("tpb", <<Arg(T("kappa"))>>)>>), Line(<<Call("tpb", <<>>), Word("x1")>>),
            Line(<<Word("x1"), Call("tpa", <<Arg(<<Call("tpb", <<>>)>>)>>)>>), B(Def("MAC", T("alpha")))}
      [] Alphabet = "conditionals" ->
           {B(Def("MAC", T("alpha"))), Line(<<Cond("MAC", FALSE, T("beta"))>>), Line(<<Cond("MAC", FALSE, <<Def("NAME2", T("gamma"))>>)>>),
            Line(<<Word("x1"), Cond("NAME2", FALSE, <<Word("two2"), Space, Foot(T("delta"))>>), Word("kappa")>>),
            Line(<<Cond("MAC", FALSE, <<Cond("NAME2", FALSE, T("kappa") \o <<Anchor("ida")>>)>>)>>),
            Line(<<Cond("NAME2", FALSE, <<Tpl("tpa", <<>>, T("alpha")).el>>)>>), Line(<<Cond("MAC", FALSE, <<ModeOf("python")>>)>>),
            Line(<<ICode>>)}
           \cup (IF v >= 107 THEN {Line(<<Cond("MAC", TRUE, <<Bold(T("Omega"))>>)>>)} ELSE {})
      [] Alphabet = "lists" ->
           {Item("*", 0, T("alpha")), Item("#", 0, T("beta")), Item("*", 2, T("gamma")), Item("*", 3, T("delta")), Item("#", 1, T("kappa")),
            Line(T("x1")), Ind(2, T("x")), Probe(3), Item("*", 4, <<Foot(T("n"))>>)}
      [] Alphabet = "modes" ->
           {B(ModeOf("python")), B(ModeOf("teletype")), Probe(1), Line(<<ICode>>), Line(<<ModeOf("c++"), ICode, Bold(<<ICode>>)>>),
            Sec("", "alpha"), End(""), BTpl("tpa", <<>>, <<B(ModeOf("teletype")), Probe(1)>>), B(Call("tpa", <<>>))}
           \cup (IF v >= 107 THEN {B(NMode("python")), Line(<<NMode("teletype"), Bold(<<ICode>>), ICode>>)} ELSE {})
      [] Alphabet = "blocks" ->
           {Line(T("alpha")), Adm("note", <<Line(T("beta")), Line(T("gamma"))>>), Adm("blockquote", <<Adm("tip", <<Line(T("delta"))>>)>>),
            Table("", "", <<<<  <<Line(T("a"))>>, <<Line(T("b")), Line(T("c"))>> >>, <<  <<Line(T("d"))>>, <<Line(T("e"))>> >>>>),
            Table("", "x", <<<<  <<Line(T("a"))>> >>>>), VList("", <<Entry("t", << <<Line(T("a"))>>, <<Line(T("b"))>> >>), Entry("u", << <<Line(T("c"))>> >>)>>),
            Item("*", 0, T("kappa")), Head0("", "x"),
            Table("", "y", <<<<  <<Line(T("a"))>>, <<Line(T("b"))>>, <<Line(T("c"))>> >>, <<  <<Line(T("d"))>> >>, <<  <<Line(T("e"))>>, <<Line(T("f"))>> >>>>)}
           \cup (IF v >= 106 THEN {List("*", << <<Line(T("a"))>>, <<Line(T("b")), Line(T("c"))>> >>)} ELSE {})
           \cup (IF v >= 107 THEN {Adm("note", <<Item("#", 0, T("a")), Probe(3)>>)} ELSE {})
      [] Alphabet = "includes" ->
           {Line(T("MAC")), B(Def("MAC", T("alpha"))), Tpl("tpa", <<>>, T("beta")), Line(<<Call("tpa", <<>>)>>), B(ModeOf("python")), Line(<<ICode>>),
            Sec("ida", "gamma"), Head0("", "delta"), Line(T("__FILENAME__")), End("")}

File(doc, v, body) == [doc |-> doc, ver |-> v, verpos |-> "before", cver |-> 0, id |-> "", title |-> IF doc THEN "Doc" ELSE "",
                       mode |-> "", modepos |-> "before", body |-> body]
\* main.qbk includes a.qbk includes b.qbk includes c.qbk
Next4 == [p \in {"main.qbk", "a.qbk", "b.qbk"} |-> CASE p = "main.qbk" -> "a.qbk" [] p = "a.qbk" -> "b.qbk" [] OTHER -> "c.qbk"]
Chain(v, imports) ==
    [files |-> [p \in {"main.qbk", "a.qbk", "b.qbk", "c.qbk"} |->
                  File(p = "main.qbk", IF p = "c.qbk" THEN 0 ELSE v,
                       IF p = "c.qbk" THEN <<>> ELSE <<IF p \in imports THEN Imp(Next4[p]) ELSE Inc(Next4[p], "")>>)],
     opts |-> [selflink |-> TRUE, strict |-> FALSE, inc |-> <<>>, def |-> <<>>]]
World0(v, doc2, v2) ==
    [files |-> [p \in ({"main.qbk"} \cup (IF NFiles > 1 THEN {"a.qbk"} ELSE {})) |->
                  IF p = "main.qbk" THEN File(TRUE, v, <<>>) ELSE File(doc2, v2, <<>>)],
     opts |-> [selflink |-> v # 105, strict |-> FALSE, inc |-> <<>>, def |-> IF v \in {103, 107} /\ Alphabet = "macros" THEN [x \in {"NAME2"} |-> "Omega"] ELSE <<>>]]
Init == /\ \E v \in Versions :
             IF NFiles = 1 THEN w = World0(v, FALSE, 0)
             ELSE IF NFiles = 4 THEN \E i \in {{}, {"main.qbk"}, {"a.qbk"}, {"b.qbk"}} : w = Chain(v, i)
             ELSE \E doc2 \in BOOLEAN, v2 \in {0, 105, 107} : w = World0(v, doc2, v2)
        /\ m = <<>> /\ phase = "write"
Size == LET RECURSIVE Sum(_)
            Sum(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN Len(w.files[p].body) + Sum(S \ {p})
        IN Sum(DOMAIN w.files)
\* files are written one after the other: the included one first
Order == [p \in {"main.qbk", "a.qbk", "b.qbk", "c.qbk"} |-> CASE p = "main.qbk" -> 4 [] p = "a.qbk" -> 3 [] p = "b.qbk" -> 2 [] OTHER -> 1]
Base == IF NFiles = 4 THEN 3 ELSE 0
Write == /\ phase = "write" /\ Size < MaxItems + Base
         /\ \E p \in DOMAIN w.files :
              /\ (IF NFiles = 4 THEN \A q \in DOMAIN w.files : Order[q] > Order[p] => Len(w.files[q].body) = 1
                 ELSE p = "a.qbk" => w.files["main.qbk"].body = <<>>)
              /\ \E i \in Items(w.files["main.qbk"].ver)
                     \cup (IF p = "main.qbk" /\ NFiles = 2 THEN {Inc("a.qbk", ""), Imp("a.qbk")}
                              \cup (IF w.files["main.qbk"].ver >= 106 THEN {Inc("a.qbk", "idb")} ELSE {}) ELSE {}) :
                    w' = [w EXCEPT !.files[p].body = Append(@, i)]
         /\ UNCHANGED <<m, phase>>
\* with two files only documents that include one are interesting
Uses(x) == \E i \in 1..Len(x.files["main.qbk"].body) : LET b == x.files["main.qbk"].body[i] IN b.k = "blk" /\ b.el.k \in {"include", "import"}
Begin == /\ phase = "write" /\ Size > Base /\ (NFiles > 1 => Uses(w) /\ w.files["a.qbk"].body # <<>>)
         /\ phase' = "run" /\ m' = Q!Start(w) /\ UNCHANGED w
Work == /\ phase = "run" /\ m.todo # <<>> /\ m' = Q!Step(w, m) /\ UNCHANGED <<w, phase>>
Finish == /\ phase = "run" /\ m.todo = <<>> /\ phase' = "done" /\ UNCHANGED <<w, m>>
          /\ (IF m.un THEN TRUE ELSE PrintT(<<"@GEN", ToJson(w)>>))
Next == Write \/ Begin \/ Work \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- what the processor promises
Running == phase \in {"run", "done"}
Shape == Running => /\ Len(m.out) = Len(m.ph) /\ Len(m.out) = Len(m.inls) + 1
                    /\ Len(m.sc) >= 1 /\ Len(m.out) >= 1
Done == phase = "done" /\ ~m.un
\* everything that was opened has been left again
Settled == Done => /\ Len(m.out) = 1 /\ m.ph = << <<>> >> /\ m.inls = <<>> /\ m.vals = <<>> /\ m.tag = <<>> /\ m.ls = <<>>
                   /\ Len(m.sc) = 1 /\ m.cond /\ m.fl = <<>> /\ m.td = 0
\* the tags of the output balance
RECURSIVE Balanced(_, _, _)
Balanced(toks, i, stack) ==
    IF i > Len(toks) THEN stack = <<>>
    ELSE CASE toks[i][1] = "o" -> Balanced(toks, i + 1, Append(stack, toks[i][2]))
           [] toks[i][1] = "c" -> stack # <<>> /\ stack[Len(stack)] = toks[i][2] /\ Balanced(toks, i + 1, SubSeq(stack, 1, Len(stack) - 1))
           [] OTHER -> Balanced(toks, i + 1, stack)
Good == Done /\ m.err = 0
WellFormed == Good => Balanced(m.out[1], 1, <<>>)
\* no id is given to two elements, and an explicit id is never changed for a
\* generated one
IdUses == {i \in 1..Len(m.out[1]) : m.out[1][i][1] = "i" /\ m.out[1][i][2] = "id"}
UniqueIds == Good => LET r == Q!Resolve(m) IN
    /\ \A i, j \in IdUses : i # j => r[m.out[1][i][3]] # r[m.out[1][j][3]]
    /\ \A i \in IdUses : LET p == m.out[1][i][3] IN
          (Q!IsExplicit(m.ids, p) /\ r[p] # Q!FullId(m.ids, r, p))
             => \E j \in IdUses : LET q == m.out[1][j][3] IN q # p /\ Q!IsExplicit(m.ids, q) /\ r[q] = Q!FullId(m.ids, r, p)
\* the section elements are those of the markup
NSec(body) == Cardinality({i \in 1..Len(body) : body[i].k = "blk" /\ body[i].el.k = "sec"})
SecsMirror == Good /\ NFiles = 1 /\ Alphabet \notin {"sections", "tsections", "nsections"} =>
    Cardinality({i \in 1..Len(m.out[1]) : m.out[1][i] = Q!Open("section")}) = NSec(w.files["main.qbk"].body)
\* taking out the parts whose condition does not hold changes nothing
RECURSIVE Alive(_, _, _)
\* (single file, definitions at block level or in a live conditional)
Alive(body, i, defs) ==
    IF i > Len(body) THEN <<>>
    ELSE LET b == body[i]
             live(x) == (x.name \in defs) = ~x.neg
             Keep(in) == SelectSeq(in, LAMBDA x : x.k # "cond" \/ live(x))
             b2 == IF b.k = "line" THEN [b EXCEPT !.in = Keep(@)] ELSE b
             d2 == defs \cup (IF b.k = "blk" /\ b.el.k = "def" THEN {b.el.name} ELSE {})
                   \cup (IF b.k = "line" THEN {x["in"][1].name : x \in {b2.in[j] : j \in {j \in 1..Len(b2.in) : b2.in[j].k = "cond" /\ b2.in[j]["in"][1].k = "def"}}} ELSE {})
         IN <<b2>> \o Alive(body, i + 1, d2)
Words(toks) == SelectSeq(toks, LAMBDA t : t[1] # "s")
DeadIsGone == Done /\ Alphabet = "conditionals" =>
    LET b == w.files["main.qbk"].body
        w2 == [w EXCEPT !.files["main.qbk"].body = Alive(b, 1, {"__FILENAME__"})]
        m2 == Q!Run(w2, Q!Start(w2))
    IN m.err = m2.err /\ Words(m.out[1]) = Words(m2.out[1]) /\ m.mac = m2.mac /\ DOMAIN m.sc[1].syms = DOMAIN m2.sc[1].syms
\* a use of a macro shows the latest definition (the first one before 1.6)
RECURSIVE Latest(_, _, _)
Latest(body, i, defs) ==
    IF i > Len(body) THEN <<>>
    ELSE LET b == body[i]
             val(s) == IF s \in DOMAIN defs THEN defs[s] ELSE s
         IN IF b.k = "blk" /\ b.el.k = "def"
            THEN Latest(body, i + 1, IF b.el.name \in DOMAIN defs /\ w.files["main.qbk"].ver < 106 THEN defs
                                     ELSE (b.el.name :> val(b.el["in"][1].s)) @@ defs)
            ELSE (IF b.k = "line" /\ Len(b.in) = 1 /\ b.in[1].k = "w" THEN <<val(b.in[1].s)>> ELSE <<>>) \o Latest(body, i + 1, defs)
ParaWords(toks) == LET is == {i \in 1..Len(toks) : toks[i] = Q!Open("para")}
                   IN [i \in is |-> toks[i + 1][2]]
SimpleMacros == \A i \in 1..Len(w.files["main.qbk"].body) : LET b == w.files["main.qbk"].body[i] IN b.k = "blk" \/ (Len(b.in) = 1 /\ b.in[1].k = "w")
RECURSIVE InOrder(_, _)
InOrder(f, n) == IF n = 0 THEN <<>> ELSE InOrder(f, n - 1) \o (IF n \in DOMAIN f THEN <<f[n]>> ELSE <<>>)
MacroLatest == Good /\ Alphabet = "macros" /\ SimpleMacros =>
    InOrder(ParaWords(m.out[1]), Len(m.out[1])) = Latest(w.files["main.qbk"].body, 1, w.opts.def)
\* an item lies in as many lists as there are open smaller indentations
RECURSIVE Depths(_, _, _)
Depths(body, i, stack) ==
    IF i > Len(body) THEN <<>>
    ELSE LET b == body[i]
             st == SelectSeq(stack, LAMBDA x : x < b.ind)
         IN <<Len(st) + 1>> \o Depths(body, i + 1, Append(st, b.ind))
RECURSIVE ItemDepths(_, _, _)
ItemDepths(toks, i, d) ==
    IF i > Len(toks) THEN <<>>
    ELSE IF toks[i][1] = "o" /\ toks[i][2] \in {"itemizedlist", "orderedlist"} THEN ItemDepths(toks, i + 1, d + 1)
    ELSE IF toks[i][1] = "c" /\ toks[i][2] \in {"itemizedlist", "orderedlist"} THEN ItemDepths(toks, i + 1, d - 1)
    ELSE IF toks[i] = Q!Open("listitem") THEN <<d>> \o ItemDepths(toks, i + 1, d) ELSE ItemDepths(toks, i + 1, d)
\* indentations that go back to an open level
RECURSIVE Aligned(_, _, _)
Aligned(body, i, stack) ==
    i > Len(body) \/ LET b == body[i]
                         st == SelectSeq(stack, LAMBDA x : x < b.ind)
                     IN b.k = "line" /\ b.mark # "" /\ (stack = <<>> => b.ind = 0)
                        /\ (st = stack \/ b.ind \in {stack[j] : j \in 1..Len(stack)}) /\ Aligned(body, i + 1, Append(st, b.ind))
ListDepth == Good /\ Alphabet = "lists" /\ Aligned(w.files["main.qbk"].body, 1, <<>>) =>
    ItemDepths(m.out[1], 1, 0) = Depths(w.files["main.qbk"].body, 1, <<>>)
=============================================================================
