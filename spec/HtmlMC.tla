------------------------------- MODULE HtmlMC -------------------------------
(* All documents of a few parts, in one page and in several.                 *)
EXTENDS Html
CONSTANT NParts
VARIABLE s
El1(t, k) == [NoNode EXCEPT !.t = t, !.k = k]
Txt(x) == [NoNode EXCEPT !.t = "#", !.x = x]
PartId(i) == "c" \o ToString(i)
W(i, m) == "w" \o ToString(i) \o m
Content(i, kind) ==
    CASE kind = "plain" -> <<El1("para", <<Txt(W(i, "p"))>>)>>
      [] kind = "note" -> <<El1("para", <<Txt(W(i, "p")), El1("footnote", <<El1("para", <<Txt(W(i, "f")),
                                [El1("footnote", <<Txt(W(i, "g"))>>) EXCEPT !.id = PartId(i) \o "n"]>>)>>), Txt(W(i, "q"))>>)>>
      [] kind = "link" -> <<El1("para", <<[El1("link", <<Txt(W(i, "l"))>>) EXCEPT !.u = PartId((i % NParts) + 1)],
                                          [El1("link", <<Txt(W(i, "a"))>>) EXCEPT !.u = PartId((i % NParts) + 1) \o "x"]>>)>>
RECURSIVE Tree(_, _, _, _)
Tree(i, par, typ, con) ==
    LET sub == SelectSeq([j \in 1..NParts |-> j], LAMBDA j : j > 1 /\ par[j] = i)
    IN [NoNode EXCEPT !.t = typ[i], !.id = PartId(i), !.x = PartId(i),
            !.k = <<El1("title", <<Txt(W(i, "t"))>>)>> \o Content(i, con[i]) \o <<[NoNode EXCEPT !.t = "anchor", !.id = PartId(i) \o "x"]>>
                  \o [j \in 1..Len(sub) |-> Tree(sub[j], par, typ, con)]]
Texts(i, con) == {W(i, "t")} \cup (CASE con = "plain" -> {W(i, "p")} [] con = "note" -> {W(i, m) : m \in {"p", "f", "g", "q"}} [] con = "link" -> {W(i, "l"), W(i, "a")})
Shapes == {p \in [1..NParts -> 0..(NParts - 1)] : p[1] = 0 /\ \A i \in 2..NParts : p[i] \in 1..(i - 1)}
Types == {t \in [1..NParts -> {"article", "section"}] : t[1] = "article"}
Contents3 == [1..NParts -> {"plain", "note", "link"}]
Opt(single, g) == [single |-> single, home |-> "index", css |-> "", graphics |-> g, boost |-> ""]
Init == \E par \in Shapes, typ \in Types, con \in Contents3, single \in BOOLEAN :
          s = [z |-> Start(Tree(1, par, typ, con), Opt(single, "")), con |-> con]
Next == ~Finished(s.z) /\ s' = [s EXCEPT !.z = IF s.z.todo = <<>> THEN Finish(s.z) ELSE Step(s.z)]
Spec == Init /\ [][Next]_s
Done == Finished(s.z)
\* the events outside of contents lists
RECURSIVE Outside(_, _, _)
Outside(evs, depth, acc) ==
    IF evs = <<>> THEN acc
    ELSE LET e == Head(evs)
         IN IF depth > 0 THEN Outside(Tail(evs), IF e.t = "div" THEN (IF e.e = "open" THEN depth + 1 ELSE depth - 1) ELSE depth, acc)
            ELSE IF e.e = "open" /\ e.c = "toc" THEN Outside(Tail(evs), 1, acc)
            ELSE Outside(Tail(evs), 0, Append(acc, e))
AllEvents == Concat([i \in 1..Len(s.z.done) |-> Outside(s.z.done[i].out, 0, <<>>)])
\* each text of the document is in one page, once
TextOnce == Done =>
    LET ev == AllEvents
    IN \A i \in 1..NParts : \A w \in Texts(i, s.con[i]) : Cardinality({j \in 1..Len(ev) : ev[j].e = "text" /\ ev[j].x = w}) = 1
\* one page for the whole document, or one for each part that has a page
PagesOK == Done => /\ Cardinality({s.z.done[i].page : i \in 1..Len(s.z.done)}) = Len(s.z.done)
                   /\ s.z.d.o.single => Len(s.z.done) = 1
\* every link to a place in the pages has its place
Places == UNION {{"@" \o s.z.done[i].page} \cup {"@" \o s.z.done[i].page \o "#" \o s.z.done[i].out[j].id : j \in {m \in 1..Len(s.z.done[i].out) : s.z.done[i].out[m].id # ""}} : i \in 1..Len(s.z.done)}
LinksLead == Done => \A i \in 1..Len(s.z.done) : \A j \in 1..Len(s.z.done[i].out) : LET u == s.z.done[i].out[j].u IN u # "" => u \in Places
\* the next links visit every page in order, the previous ones back
Ref(pg, key) == LET ev == s.z.done[pg].out IN {ev[j].u : j \in {m \in 1..Len(ev) : ev[m].t = "a" /\ ev[m].c = key}}
NavOK == Done => \A i \in 1..Len(s.z.done) :
    /\ Ref(i, "n") = IF i = Len(s.z.done) THEN {} ELSE {"@" \o s.z.done[i + 1].page}
    /\ Ref(i, "p") = IF i = 1 THEN {} ELSE {"@" \o s.z.done[i - 1].page}
    /\ Ref(i, "h") = IF i = 1 THEN {} ELSE {"@" \o s.z.done[1].page}
\* each footnote has a reference and a text in one page, which lead to each other, numbered in order
NotesOK == Done =>
    LET pg == [i \in 1..Len(s.z.done) |-> s.z.done[i].out]
        notes(i) == SelectSeq(pg[i], LAMBDA e : e.e = "open" /\ e.c = "footnote" /\ e.t = "div")
        refs(i) == SelectSeq([j \in 1..Len(pg[i]) |-> j], LAMBDA j : j > 1 /\ pg[i][j].e = "open" /\ pg[i][j].t = "sup" /\ pg[i][j].c = "footnote")
    IN \A i \in 1..Len(pg) :
          /\ Len(notes(i)) = Len(refs(i))
          /\ \A m \in 1..Len(refs(i)) : pg[i][refs(i)[m] - 1].u = "@" \o s.z.done[i].page \o "#" \o notes(i)[m].id
\* every tag is closed in the right order
RECURSIVE Bal(_, _)
Bal(evs, st) == IF evs = <<>> THEN st = <<>>
    ELSE LET e == Head(evs) IN CASE e.e = "open" -> Bal(Tail(evs), <<e.t>> \o st)
                                 [] e.e = "close" -> st # <<>> /\ Head(st) = e.t /\ Bal(Tail(evs), Tail(st))
                                 [] OTHER -> Bal(Tail(evs), st)
Balanced == Done => \A i \in 1..Len(s.z.done) : Bal(s.z.done[i].out, <<>>)
\* ids of a page are not used twice (but for the sections in a page: known finding)
NumUp == [][s'.z.num >= s.z.num]_s
=============================================================================
