------------------------------ MODULE Cleanup ------------------------------
(* Cleanup scopes.  Objects are of five kinds: plain; user (looks at every   *)
(* object registered before it in its scope while it is being destroyed);    *)
(* owner (has a scope of its own with two plain objects); adder (registers a *)
(* new plain object in its own scope while it is being destroyed); closer    *)
(* (ends another scope while it is being destroyed).                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Scopes, MaxObjs, Depth
\* an object is a number; kind[n]; scope contents newest last; a log of the
\* destructions, in order; `seen`: for each destruction what of its own scope
\* was still there
Start == [kind |-> <<>>, in |-> [s \in Scopes |-> <<>>], open |-> Scopes, log |-> <<>>]
Extra(k) == CASE k = "owner" -> 2 [] OTHER -> 0

RECURSIVE Close(_, _)
\* one step of ending scope s, until nothing is left
Close(st, s) ==
    IF st.in[s] = <<>> THEN st
    ELSE LET n == st.in[s][Len(st.in[s])]
             rest == SubSeq(st.in[s], 1, Len(st.in[s]) - 1)
             k == st.kind[n]
             s1 == [st EXCEPT !.in[s] = rest, !.log = Append(@, [n |-> n, left |-> rest])]
             s2 == CASE k.k = "owner" ->
                          \* its own objects are destroyed with it, newest first
                          [s1 EXCEPT !.log = @ \o <<[n |-> n + 2, left |-> <<n + 1>>], [n |-> n + 1, left |-> <<>>]>>]
                     [] k.k = "adder" ->
                          LET m == Len(st.kind) + 1
                          IN [s1 EXCEPT !.kind = Append(@, [k |-> "plain", t |-> 0]), !.in[s] = Append(rest, m)]
                     [] k.k = "closer" -> IF k.t \in s1.open THEN Close([s1 EXCEPT !.open = @ \ {k.t}], k.t) ELSE s1
                     [] OTHER -> s1
         IN Close(s2, s)
Apply(st, o) ==
    CASE o.op = "add" ->
           LET n == Len(st.kind) + 1
               more == [i \in 1..Extra(o.k) |-> [k |-> "inner", t |-> 0]]
           IN [st EXCEPT !.kind = @ \o <<[k |-> o.k, t |-> o.t]>> \o more, !.in[o.s] = Append(@, n)]
      [] o.op = "close" -> Close([st EXCEPT !.open = @ \ {o.s}], o.s)
Enabled(st, o) ==
    CASE o.op = "add" -> o.s \in st.open /\ Len(st.kind) < MaxObjs /\ (IF o.k = "closer" THEN o.t # o.s /\ o.t \in st.open ELSE o.t = 0)
      [] o.op = "close" -> o.s \in st.open

Ops == [op : {"add"}, s : Scopes, k : {"plain", "user", "owner", "adder", "closer"}, t : Scopes \cup {0}] \cup [op : {"close"}, s : Scopes]
VARIABLES st, h
Init == st = Start /\ h = <<>>
Do(o) == Enabled(st, o) /\ st' = Apply(st, o) /\ h' = Append(h, o)
Next == Len(h) < Depth /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_<<st, h>>
View == st

\* ---- properties of the design
Logged(n) == {i \in 1..Len(st.log) : st.log[i].n = n}
Inner(n) == st.kind[n].k = "inner"
Alive(n) == \E s \in Scopes : \E i \in 1..Len(st.in[s]) : st.in[s][i] = n
\* everything is destroyed at most once, not while it is registered, and
\* exactly once when its scope is closed
Once == \A n \in 1..Len(st.kind) : Cardinality(Logged(n)) <= 1
Exact == \A n \in 1..Len(st.kind) : ~Inner(n) => (Alive(n) <=> Logged(n) = {})
Closed == \A s \in Scopes \ st.open : st.in[s] = <<>>
\* objects of one scope go newest first: what is left is older
Newest == \A i \in 1..Len(st.log) : ~Inner(st.log[i].n) => \A j \in 1..Len(st.log[i].left) : st.log[i].left[j] < st.log[i].n
NothingEarly == [][(h' # h /\ h'[Len(h')].op = "add") => st'.log = st.log]_<<st, h>>
=============================================================================
