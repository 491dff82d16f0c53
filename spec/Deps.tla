-------------------------------- MODULE Deps --------------------------------
(* The list of the files a run depended on: paths that were tested, with     *)
(* whether they were found, and wildcard searches with what they matched.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Paths, Depth
Start == [fs |-> {}, deps |-> <<>>, globs |-> <<>>, last |-> <<>>]

\* ---- paths are sequences of bytes
RECURSIVE Split(_, _)
Split(p, cur) == IF p = <<>> THEN <<cur>>
                 ELSE IF Head(p) = 47 THEN <<cur>> \o Split(Tail(p), <<>>) ELSE Split(Tail(p), Append(cur, Head(p)))
Comps(p) == Split(p, <<>>)
Less(a, b) == \E i \in 0..Len(a) :
    /\ i < Len(b) /\ SubSeq(a, 1, i) = SubSeq(b, 1, i)
    /\ (i = Len(a) \/ a[i + 1] < b[i + 1])
\* component by component
PLess(p, q) == LET a == Comps(p)
                   b == Comps(q)
               IN \E i \in 0..Len(a) : /\ i < Len(b) /\ SubSeq(a, 1, i) = SubSeq(b, 1, i)
                                       /\ (i = Len(a) \/ Less(a[i + 1], b[i + 1]))
RECURSIVE PSort(_)
PSort(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : PLess(x, y) IN <<x>> \o PSort(S \ {x})
RECURSIVE BSort(_)
BSort(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : Less(x, y) IN <<x>> \o BSort(S \ {x})

\* ---- escaping
Oct(c) == <<92, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
Esc1(c) == CASE c = 7 -> <<92, 97>> [] c = 8 -> <<92, 98>> [] c = 9 -> <<92, 116>> [] c = 10 -> <<92, 110>>
             [] c = 11 -> <<92, 118>> [] c = 12 -> <<92, 102>> [] c = 13 -> <<92, 114>>
             [] c \in (0..6) \cup {14, 15, 127} -> Oct(c)
             [] c = 92 -> <<92, 92>>
             [] OTHER -> <<c>>
RECURSIVE Escape(_)
Escape(p) == IF p = <<>> THEN <<>> ELSE Esc1(Head(p)) \o Escape(Tail(p))
\* what a reader of the list does
RECURSIVE Unescape(_)
Unescape(e) ==
    IF e = <<>> THEN <<>>
    ELSE IF Head(e) # 92 THEN <<Head(e)>> \o Unescape(Tail(e))
    ELSE LET c == e[2] IN
         IF c >= 48 /\ c <= 55 THEN <<((c - 48) * 64) + ((e[3] - 48) * 8) + (e[4] - 48)>> \o Unescape(SubSeq(e, 5, Len(e)))
         ELSE <<CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 118 -> 11 [] c = 102 -> 12 [] c = 114 -> 13 [] OTHER -> c>>
              \o Unescape(SubSeq(e, 3, Len(e)))

\* ---- the operations
Apply(s, o) ==
    CASE o.op = "create" -> [s EXCEPT !.fs = @ \cup {o.p}]
      [] o.op = "delete" -> [s EXCEPT !.fs = @ \ {o.p}]
      [] o.op = "dep" -> LET f == o.p \in s.fs IN [s EXCEPT !.deps = (o.p :> (f \/ (o.p \in DOMAIN @ /\ @[o.p]))) @@ @]
      [] o.op = "glob" -> [s EXCEPT !.globs = @ @@ (o.p :> {}), !.last = o.p]
      [] o.op = "match" -> [s EXCEPT !.globs[s.last] = @ \cup {o.p}]
      [] o.op = "write" -> s
Enabled(s, o) ==
    CASE o.op = "create" -> o.p \notin s.fs
      [] o.op = "delete" -> o.p \in s.fs
      [] o.op = "match" -> s.last # <<>>
      [] OTHER -> TRUE
Checked(f) == f % 2 = 1
Escaped(f) == f >= 2
Name(p, f) == IF Escaped(f) THEN Escape(p) ELSE p
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Lines(s, f) ==
    IF Checked(f)
    THEN LET d == PSort(DOMAIN s.deps)
             g == PSort(DOMAIN s.globs)
         IN [i \in 1..Len(d) |-> <<IF s.deps[d[i]] THEN 43 ELSE 45, 32>> \o Name(d[i], f)]
            \o Cat([i \in 1..Len(g) |->
                LET x == PSort(s.globs[g[i]]) IN
                <<(<<103, 32>> \o Name(g[i], f))>> \o [j \in 1..Len(x) |-> <<43, 32>> \o Name(x[j], f)]])
    ELSE BSort({Name(p, f) : p \in {p \in DOMAIN s.deps : s.deps[p]} \cup UNION {s.globs[g] : g \in DOMAIN s.globs}})
Text(s, f) == LET l == Lines(s, f) IN Cat([i \in 1..Len(l) |-> l[i] \o <<10>>])
Obs(s, o) == CASE o.op = "write" -> Text(s, o.f) [] o.op = "dep" -> IF o.p \in s.fs THEN <<1>> ELSE <<0>> [] OTHER -> <<>>

Ops == [op : {"create", "delete", "dep", "glob", "match"}, p : Paths] \cup [op : {"write"}, f : 0..3]
VARIABLES st, h
vars == <<st, h>>
Init == st = Start /\ h = <<>>
Do(o) == Enabled(st, o) /\ st' = Apply(st, o) /\ h' = Append(h, o)
Next == Len(h) < Depth /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
View == st

\* ---- properties
\* an escaped list can be read back: every line is one path
Readable == \A f \in {2, 3} :
    LET l == Lines(st, f)
        body(x) == IF Checked(f) THEN SubSeq(x, 3, Len(x)) ELSE x
    IN /\ \A i \in 1..Len(l) : \A j \in 1..Len(l[i]) : l[i][j] # 10
       /\ (f = 2 => {Unescape(l[i]) : i \in 1..Len(l)} = {p \in DOMAIN st.deps : st.deps[p]} \cup UNION {st.globs[g] : g \in DOMAIN st.globs})
       /\ (f = 3 => {<<l[i][1], Unescape(body(l[i]))>> : i \in 1..Len(l)} =
                       {<<IF st.deps[p] THEN 43 ELSE 45, p>> : p \in DOMAIN st.deps} \cup {<<103, p>> : p \in DOMAIN st.globs}
                       \cup UNION {{<<43, p>> : p \in st.globs[g]} : g \in DOMAIN st.globs})
\* each once
Once == \A f \in {0, 2} : LET l == Lines(st, f) IN \A i, j \in 1..Len(l) : i # j => l[i] # l[j]
\* every path that was tested is listed, and found means it existed when tested
Grows == [][ /\ DOMAIN st.deps \subseteq DOMAIN st'.deps
             /\ \A p \in DOMAIN st.deps : st.deps[p] => st'.deps[p]
             /\ \A p \in DOMAIN st'.deps : (st'.deps[p] /\ ~(p \in DOMAIN st.deps /\ st.deps[p])) => p \in st.fs
             /\ DOMAIN st.globs \subseteq DOMAIN st'.globs
             /\ \A g \in DOMAIN st.globs : st.globs[g] \subseteq st'.globs[g]]_vars
=============================================================================
