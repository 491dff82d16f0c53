------------------------------- MODULE Callouts -------------------------------
(* Callouts of code: marks in the code, and a list of their texts after it.  *)
(* Items are [k, x, body]: words "w"; code "code", of words, marks "mark" and *)
(* calls; calls "call" of templates and snippets; boxes "box" (lists, tables, *)
(* titles, conditionals ...) of words and calls.  A snippet has one list for  *)
(* all its code, and for what it calls; other code has callouts from 1.7 on.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Docs, Defs
It(k, x, body) == [k |-> k, x |-> x, body |-> body]
E(k, n, x) == [k |-> k, n |-> n, x |-> x]

Start(doc) == [todo |-> doc, depth |-> 0, pend |-> <<>>, n |-> 0, snip |-> <<FALSE>>, out |-> <<>>]
DefOf(defs, x) == defs[CHOOSE i \in 1..Len(defs) : defs[i].x = x]
Emit(m, e) == [m EXCEPT !.out = Append(@, e)]
Do(m, its) == [m EXCEPT !.todo = its \o @]
Simple(k) == It(k, "", <<>>)
Step(m0, v, defs) ==
    LET i == Head(m0.todo)
        m == [m0 EXCEPT !.todo = Tail(@)]
        marks == v >= 107 \/ Head(m.snip)
    IN CASE i.k = "w" -> Emit(m, E("word", 0, i.x))
         [] i.k = "box" -> IF i.x = "no" THEN m ELSE Do(m, i.body)
         \* code of snippets counts as such only where it stands in the snippet's source
         [] i.k = "call" -> LET d == DefOf(defs, i.x)
                            IN Do([m EXCEPT !.snip = <<d.snip>> \o @],
                                  IF d.snip THEN <<Simple("start")>> \o d.body \o <<Simple("stop"), Simple("back")>> ELSE d.body \o <<Simple("back")>>)
         [] i.k = "back" -> [m EXCEPT !.snip = Tail(@)]
         [] i.k = "code" -> Do(m, IF v >= 107 THEN <<Simple("start")>> \o i.body \o <<Simple("stop")>> ELSE i.body)
         [] i.k = "mark" -> IF marks THEN Emit([m EXCEPT !.n = @ + 1, !.pend = Append(@, [n |-> m.n + 1, x |-> i.x, body |-> i.body, snip |-> Head(m.snip)])], E("mark", m.n + 1, ""))
                            ELSE Emit(m, E("word", 0, i.x))
         [] i.k = "start" -> [m EXCEPT !.depth = @ + 1]
         [] i.k = "stop" -> IF m.depth > 1 \/ m.pend = <<>> THEN [m EXCEPT !.depth = @ - 1]
                            ELSE LET entries == FoldLeft(LAMBDA a, p : a \o <<[k |-> "entry", x |-> p.n, body |-> <<It("w", p.x, <<>>)>> \o p.body]>>, <<>>, m.pend)
                                 IN Emit(Do([m EXCEPT !.depth = @ - 1, !.pend = <<>>], entries \o <<Simple("end")>>), E("list", 0, ""))
         [] i.k = "entry" -> Emit(Do(m, i.body), E("entry", i.x, ""))
         [] i.k = "end" -> Emit(m, E("end", 0, ""))
RECURSIVE Run(_, _, _)
Run(m, v, defs) == IF m.todo = <<>> THEN m ELSE Run(Step(m, v, defs), v, defs)
Result(doc, v, defs) == Run(Start(doc), v, defs)

(* ------------------------------------------------------------- properties *)
VARIABLES m, v, defs
Init == m \in {Start(d) : d \in Docs} /\ v \in {106, 107} /\ defs \in Defs
Next == m.todo # <<>> /\ m' = Step(m, v, defs) /\ UNCHANGED <<v, defs>>
Spec == Init /\ [][Next]_<<m, v, defs>>
Complete == m.todo = <<>>
Places(k) == {i \in 1..Len(m.out) : m.out[i].k = k}
Numbers(k) == {m.out[i].n : i \in Places(k)}
\* exactly one entry for each mark, behind it
Paired == /\ Cardinality(Numbers("mark")) = Cardinality(Places("mark"))
          /\ Cardinality(Numbers("entry")) = Cardinality(Places("entry"))
          /\ Complete => Numbers("mark") = Numbers("entry")
          /\ \A i \in Places("entry") : \E j \in Places("mark") : j < i /\ m.out[i].n = m.out[j].n
\* marks and the entries of a list are in order
Ordered == /\ \A i, j \in Places("mark") : i < j => m.out[i].n < m.out[j].n
           /\ \A i, j \in Places("entry") : (i < j /\ ~\E l \in Places("list") \cup Places("end") : i < l /\ l < j) => m.out[i].n < m.out[j].n
\* a list has an entry
NotEmpty == \A i \in Places("list") : i < Len(m.out) => m.out[i + 1].k = "entry"
Settled == Complete => m.depth = 0 /\ m.pend = <<>> /\ Cardinality(Places("list")) = Cardinality(Places("end")) /\ m.snip = <<FALSE>>
\* what stands behind the code does not get between it and its list: no text
\* of the document comes between the last mark and its list, but the rest of the code or snippet
Depth == m.depth >= 0
=============================================================================
