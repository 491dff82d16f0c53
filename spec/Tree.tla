------------------------------- MODULE Tree -------------------------------
(* Trees of nodes as a user sees them: a builder that appends nodes, parts   *)
(* taken out as trees of their own, and trees put back next to or below a    *)
(* node.  A forest is a sequence of roots; `kids` gives every node's         *)
(* children in order.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxNodes, Trees, Depth
Start == [kids |-> <<>>, b |-> <<>>, cur |-> 0, par |-> 0, reg |-> [i \in 1..3 |-> <<>>]]

RECURSIVE Below(_, _)
\* the nodes of a forest
Below(st, f) == UNION {{f[i]} \cup Below(st, st.kids[f[i]]) : i \in 1..Len(f)}
Sub(st, n) == Below(st, <<n>>)
Lists(st) == {st.b} \cup {st.reg[i] : i \in 1..3} \cup {st.kids[n] : n \in 1..Len(st.kids)}
ParentOf(st, n) == LET P == {p \in 1..Len(st.kids) : \E i \in 1..Len(st.kids[p]) : st.kids[p][i] = n}
                   IN IF P = {} THEN 0 ELSE CHOOSE p \in P : TRUE
Sibs(st, n) == CHOOSE l \in Lists(st) : \E i \in 1..Len(l) : l[i] = n
Pos(l, n) == CHOOSE i \in 1..Len(l) : l[i] = n
Cut(l, n) == SelectSeq(l, LAMBDA x : x # n)
\* n leaves the list it is in
Unlink(st, n) ==
    [st EXCEPT !.b = Cut(@, n), !.reg = [i \in 1..3 |-> Cut(st.reg[i], n)],
               !.kids = [m \in 1..Len(st.kids) |-> Cut(st.kids[m], n)]]
\* r is put into the list of n, before position i of it
PutSib(st, n, r, d) ==
    LET ins(l) == IF \E i \in 1..Len(l) : l[i] = n THEN InsertAt(l, Pos(l, n) + d, r) ELSE l
    IN [st EXCEPT !.b = ins(@), !.reg = [i \in 1..3 |-> ins(st.reg[i])], !.kids = [m \in 1..Len(st.kids) |-> ins(st.kids[m])]]
Taken(st, j) == [st EXCEPT !.reg[j] = <<>>]

Apply(st, o) ==
    CASE o.op = "add" ->
           LET n == Len(st.kids) + 1
               s1 == [st EXCEPT !.kids = Append(@, <<>>), !.cur = n]
           IN IF st.par = 0 THEN [s1 EXCEPT !.b = Append(@, n)] ELSE [s1 EXCEPT !.kids[st.par] = Append(@, n)]
      [] o.op = "start" -> [st EXCEPT !.par = st.cur, !.cur = 0]
      [] o.op = "end" -> [st EXCEPT !.cur = st.par, !.par = ParentOf(st, st.par)]
      [] o.op = "bextract" ->
           \* a position inside the part goes back to where the part was
           LET l == Sibs(st, o.n)
               i == Pos(l, o.n)
               s1 == [Unlink(st, o.n) EXCEPT !.reg[o.i] = <<o.n>>]
           IN IF (IF st.cur # 0 THEN st.cur ELSE st.par) \in Sub(st, o.n)
              THEN [s1 EXCEPT !.cur = IF i = 1 THEN 0 ELSE l[i - 1], !.par = ParentOf(st, o.n)]
              ELSE s1
      [] o.op = "release" -> [st EXCEPT !.reg[o.i] = st.b, !.b = <<>>, !.cur = 0, !.par = 0]
      [] o.op = "extract" -> [Unlink(st, o.n) EXCEPT !.reg[o.i] = <<o.n>>]
      [] o.op = "before" -> PutSib(Taken(st, o.i), o.n, st.reg[o.i][1], 0)
      [] o.op = "after" -> PutSib(Taken(st, o.i), o.n, st.reg[o.i][1], 1)
      [] o.op = "first" -> [Taken(st, o.i) EXCEPT !.kids[o.n] = st.reg[o.i] \o @]
      [] o.op = "last" -> [Taken(st, o.i) EXCEPT !.kids[o.n] = @ \o st.reg[o.i]]
      [] o.op = "move" -> [st EXCEPT !.reg[o.i] = st.reg[o.n], !.reg[o.n] = <<>>]
      [] o.op = "drop" -> [st EXCEPT !.reg[o.i] = <<>>]

InRegs(st) == UNION {Below(st, st.reg[i]) : i \in 1..3}
Enabled(st, o) ==
    CASE o.op = "add" -> Len(st.kids) < MaxNodes
      [] o.op = "start" -> st.cur # 0 /\ st.kids[st.cur] = <<>>
      [] o.op = "end" -> st.par # 0
      [] o.op = "bextract" -> o.n \in Below(st, st.b) /\ st.reg[o.i] = <<>>
      [] o.op = "release" -> st.b # <<>> /\ st.reg[o.i] = <<>>
      \* (the first root of a tree of several cannot be told apart from it)
      [] o.op = "extract" -> o.n \in InRegs(st) /\ st.reg[o.i] = <<>>
      [] o.op \in {"before", "after", "first", "last"} ->
             /\ Len(st.reg[o.i]) = 1 /\ o.n \in InRegs(st) \ Below(st, st.reg[o.i])
             \* nothing can be put in front of the root a tree is known by
             /\ (o.op = "before" => ParentOf(st, o.n) # 0 \/ Pos(Sibs(st, o.n), o.n) > 1)
      [] o.op = "move" -> o.n \in Trees /\ o.n # o.i /\ st.reg[o.i] = <<>> /\ st.reg[o.n] # <<>>
      [] o.op = "drop" -> st.reg[o.i] # <<>>

VARIABLES st, h
Ops == [op : {"add", "start", "end"}] \cup [op : {"release", "drop"}, i : Trees]
       \cup [op : {"bextract", "extract", "before", "after", "first", "last", "move"}, i : Trees, n : 1..MaxNodes]
Init == st = Start /\ h = <<>>
Do(o) == Enabled(st, o) /\ st' = Apply(st, o) /\ h' = Append(h, o)
Next == Len(h) < Depth /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_<<st, h>>
View == st

\* ---- properties of the design
Forests == <<st.b>> \o st.reg
\* every node is reachable at most once, and once unless it was dropped
Count(n) == Cardinality({<<l, i>> \in {<<l, i>> \in Lists(st) \X (1..MaxNodes) : i <= Len(l)} : l[i] = n})
Once == \A n \in 1..Len(st.kids) : Count(n) <= 1
Disjoint == \A i, j \in 1..4 : i # j => Below(st, Forests[i]) \cap Below(st, Forests[j]) = {}
\* the builder's position is at the end of the list it appends to
AtEnd == /\ (st.cur # 0 => LET l == IF st.par = 0 THEN st.b ELSE st.kids[st.par] IN l # <<>> /\ l[Len(l)] = st.cur)
         /\ (st.cur = 0 => (IF st.par = 0 THEN st.b = <<>> ELSE st.kids[st.par] = <<>>))
         /\ st.par \in {0} \cup Below(st, st.b)
\* an operation never changes what a node has below it unless it names it
Untouched == [][\A n \in 1..Len(st.kids) : (st.kids[n] # st'.kids[n]) =>
    LET o == h'[Len(h')] IN
    \/ o.op = "add" /\ n = st.par
    \/ o.op \in {"first", "last"} /\ o.n = n
    \/ o.op \in {"before", "after", "extract", "bextract"} /\ ParentOf(st, o.n) = n]_<<st, h>>
=============================================================================
