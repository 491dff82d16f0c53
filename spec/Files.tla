------------------------------- MODULE Files -------------------------------
(* Text derived from source files, and where each position in it came from.  *)
(* A file is a sequence of characters with, for each, an offset in the file  *)
(* it was derived from; files[1] is the real one.  Two builders assemble     *)
(* derived files out of parts of one file; a finished file can be the base   *)
(* of another one.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS MaxLen, MaxFiles, Depth, Alphabet
NL == 10
TAB == 9
SP == 32
Ws(c) == c \in {SP, TAB}

\* ---- lines of a text t between offsets i and j (offsets count from 0)
LineStart(t, i) == LET B == {k \in 1..i : t[k] = NL} IN IF B = {} THEN 0 ELSE Max(B)
Position(t, i) == [l |-> Cardinality({k \in 1..i : t[k] = NL}) + 1, c |-> i - LineStart(t, i) + 1]
Width(run) == FoldLeft(LAMBDA w, c : IF c = TAB THEN w - (w % 4) + 4 ELSE w + 1, 0, run)
\* length of the run of blanks from offset i, before offset j
Lead(t, i, j) == LET N == {k \in i..(j - 1) : ~Ws(t[k + 1])} IN IF N = {} THEN j - i ELSE Min(N) - i

\* ---- unindenting
\* The lines of t[i..j): each with its start, and its end without the newline
LinesOf(t, i, j) ==
    LET starts == {i} \cup {k \in (i + 1)..(j - 1) : t[k] = NL} \cup (IF j > i /\ t[j] = NL THEN {j} ELSE {})
        endOf(s) == LET N == {k \in s..(j - 1) : t[k + 1] = NL} IN IF N = {} THEN j ELSE Min(N)
    IN [n \in 1..Cardinality(starts) |->
          LET s == CHOOSE s \in starts : Cardinality({x \in starts : x < s}) = n - 1
              e == endOf(s)
              w == Lead(t, s, e)
          IN [s |-> s, e |-> e, w |-> w, blank |-> s + w = e]]
\* the characters left of an unindented text: [c, o] with o the offset of the
\* original (that of the line for what is left of its indentation)
Unindent(t, i, j) ==
    LET all == LinesOf(t, i, j)
        text == {n \in 1..Len(all) : ~all[n].blank}
    IN IF text = {} THEN [chars |-> <<>>, first |-> -1]
       ELSE
       LET n0 == Min(text)
           L == [n \in 1..(Len(all) - n0 + 1) |-> all[n + n0 - 1]]
           solid == {n \in 1..Len(L) : ~L[n].blank}
           ind == Min({L[n].w : n \in solid})
           wid == Min({Width(SubSeq(t, L[n].s + 1, L[n].s + L[n].w)) : n \in solid})
           first == SubSeq(t, L[1].s + 1, L[1].s + ind)
           mixed == \E n \in 2..Len(L) : L[n].w >= ind /\ L[n].s < j /\ ~(L[n].blank /\ L[n].e = j)
                                          /\ ~(L[n].w = 0) /\ SubSeq(t, L[n].s + 1, L[n].s + ind) # first
           kept(n) ==
              IF mixed
              THEN LET w == Width(SubSeq(t, L[n].s + 1, L[n].s + L[n].w)) - wid
                   IN [k \in 1..(IF w > 0 THEN w ELSE 0) |-> SP]
              ELSE SubSeq(t, L[n].s + 1 + (IF ind < L[n].w THEN ind ELSE L[n].w), L[n].s + L[n].w)
           line(n) ==
              [k \in 1..Len(kept(n)) |-> [c |-> kept(n)[k], o |-> L[n].s, u |-> TRUE]]
              \o [k \in 1..(L[n].e - L[n].s - L[n].w) |-> [c |-> t[L[n].s + L[n].w + k], o |-> L[n].s + L[n].w + k - 1, u |-> TRUE]]
              \o (IF L[n].e < j THEN <<[c |-> NL, o |-> L[n].e, u |-> TRUE]>> ELSE <<>>)
       IN [chars |-> FlattenSeq([n \in 1..Len(L) |-> line(n)]), first |-> L[1].s]

\* ---- the machine
\* A file: base (0: real), t (text), o (offsets in base), k (where each
\* character is from: "s" taken over, "g" generated, "u" unindented, "U" the
\* first of those) and end:
\* the offset in base that stands for its end, and whether only its line counts
Rep(n, x) == [m \in 1..n |-> x]
Real(t) == [base |-> 0, t |-> t, o |-> <<>>, k |-> <<>>, end |-> [o |-> Len(t), loose |-> FALSE]]
Empty(f) == [base |-> f, t |-> <<>>, o |-> <<>>, k |-> <<>>, end |-> [o |-> 0, loose |-> FALSE]]
Start(t) == [f |-> <<Real(t)>>, b |-> <<Empty(0), Empty(0)>>]

\* the real position of offset i of file f; d: how much of it counts
\* (0: line and column, 1: line, 2: nothing)
RECURSIVE PosAt(_, _, _, _)
PosAt(st, f, i, d) ==
    LET x == st.f[f] IN
    IF x.base = 0 THEN Position(x.t, i) @@ [d |-> d]
    ELSE IF i < Len(x.t) THEN PosAt(st, x.base, x.o[i + 1], IF d = 0 THEN 0 ELSE 2)
    ELSE PosAt(st, x.base, x.end.o, IF d > 0 THEN 2 ELSE IF x.end.loose THEN 1 ELSE 0)

Grow(b, t, o, k, end) == [b EXCEPT !.t = @ \o t, !.o = @ \o o, !.k = @ \o Rep(Len(t), k), !.end = end]
Apply(st, op) ==
    CASE op.op = "start" -> [st EXCEPT !.b[op.b] = Empty(op.f)]
      [] op.op = "add" ->
           LET s == SubSeq(st.f[st.b[op.b].base].t, op.i + 1, op.j)
           IN [st EXCEPT !.b[op.b] = Grow(@, s, [k \in 1..Len(s) |-> op.i + k - 1], "s", [o |-> op.j, loose |-> FALSE])]
      [] op.op = "gen" -> [st EXCEPT !.b[op.b] = Grow(@, op.t, Rep(Len(op.t), op.i), "g", [o |-> op.i, loose |-> FALSE])]
      [] op.op = "unindent" ->
           LET r == Unindent(st.f[st.b[op.b].base].t, op.i, op.j).chars
               n == Len(r)
           IN IF n = 0 THEN st
              ELSE [st EXCEPT !.b[op.b] = [@ EXCEPT !.t = @ \o [k \in 1..n |-> r[k].c], !.o = @ \o [k \in 1..n |-> r[k].o],
                                                 !.k = @ \o <<"U">> \o Rep(n - 1, "u"), !.end = [o |-> op.j, loose |-> TRUE]]]
      [] op.op = "part" ->
           \* characters i..j of the other builder; the blanks an unindented
           \* part starts with all stand for where they start
           LET x == st.b[3 - op.b]
               n == op.j - op.i
               lead == Lead(x.t, op.i, op.j)
               \* (as far as it is the same one)
               off(k) == IF k <= lead /\ x.k[op.i + 1] \in {"u", "U"} /\ (\A m \in 2..k : x.k[op.i + m] = "u") THEN x.o[op.i + 1] ELSE x.o[op.i + k]
               z == x.o[op.j]
           IN IF n = 0 THEN st
              ELSE [st EXCEPT !.b[op.b] =
                     [@ EXCEPT !.t = @ \o SubSeq(x.t, op.i + 1, op.j), !.o = @ \o [k \in 1..n |-> off(k)],
                               !.k = @ \o <<IF x.k[op.i + 1] = "u" THEN "U" ELSE x.k[op.i + 1]>> \o SubSeq(x.k, op.i + 2, op.j),
                               !.end = CASE x.k[op.j] = "s" -> [o |-> z + 1, loose |-> FALSE]
                                         [] x.k[op.j] = "g" -> [o |-> z, loose |-> FALSE]
                                         [] OTHER -> [o |-> IF x.t[op.j] = NL THEN z + 1 ELSE z, loose |-> TRUE]]]
      [] op.op = "release" -> [st EXCEPT !.f = Append(@, st.b[op.b]), !.b[op.b] = Empty(0)]
Enabled(st, op) ==
    CASE op.op = "start" -> st.b[op.b].base = 0 /\ op.f <= Len(st.f)
      [] op.op \in {"add", "unindent"} ->
           /\ st.b[op.b].base # 0 /\ Len(st.b[op.b].t) < MaxLen
           /\ op.i <= op.j /\ op.j <= Len(st.f[st.b[op.b].base].t)
      [] op.op = "gen" -> st.b[op.b].base # 0 /\ op.i <= Len(st.f[st.b[op.b].base].t) /\ Len(st.b[op.b].t) < MaxLen
      [] op.op = "part" ->
           /\ st.b[op.b].base # 0 /\ st.b[3 - op.b].base = st.b[op.b].base
           /\ op.i <= op.j /\ op.j <= Len(st.b[3 - op.b].t) /\ Len(st.b[op.b].t) < MaxLen
      [] op.op = "release" -> st.b[op.b].base # 0 /\ st.b[op.b].t # <<>> /\ Len(st.f) < MaxFiles

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Ops == [op : {"start"}, b : {1, 2}, f : 1..MaxFiles] \cup [op : {"add", "unindent", "part"}, b : {1, 2}, i : 0..MaxLen, j : 0..MaxLen]
       \cup [op : {"gen"}, b : {1, 2}, i : 0..MaxLen, t : {<<NL, 120>>, <<120>>}] \cup [op : {"release"}, b : {1, 2}]
VARIABLES st, h
Init == \E t \in [1..3 -> Alphabet] : st = Start(t) /\ h = <<>>
Do(o) == Enabled(st, o) /\ st' = Apply(st, o) /\ h' = Append(h, o)
Next == Len(h) < Depth /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_<<st, h>>
View == st

\* ---- properties of the design
AllFiles == {st.f[i] : i \in 1..Len(st.f)} \cup {b \in {st.b[1], st.b[2]} : b.base # 0}
\* what is not a blank and was not generated is the same character there
SameChar == \A f \in AllFiles : f.base # 0 => \A n \in 1..Len(f.t) :
    LET src == st.f[f.base].t IN
    CASE f.k[n] = "s" -> f.t[n] = src[f.o[n] + 1]
      [] f.k[n] \in {"u", "U"} -> Ws(f.t[n]) \/ f.t[n] = src[f.o[n] + 1]
      [] OTHER -> TRUE
InFile == \A f \in AllFiles : f.base # 0 => \A k \in 1..Len(f.t) : f.o[k] \in 0..Len(st.f[f.base].t)
\* unindenting: nothing but blanks (and blank lines before the text) goes, the
\* least indented line starts at column one, and lines keep their relation
Solid(t) == SelectSeq(t, LAMBDA c : c \notin {SP, TAB, NL})
UnindentOk == \A t \in {st.f[1].t} :
    LET r == Unindent(t, 0, Len(t)).chars
        u == [k \in 1..Len(r) |-> r[k].c]
        L == LinesOf(u, 0, Len(u))
        solid == {n \in 1..Len(L) : ~L[n].blank}
        all == LinesOf(t, 0, Len(t))
        from == {n \in 1..Len(all) : ~all[n].blank}
    IN /\ Solid(u) = Solid(t)
       /\ (u # <<>> => (~L[1].blank /\ 0 \in {L[n].w : n \in solid} /\ Cardinality(solid) = Cardinality(from)))
       /\ \A k \in 1..Len(r) : (~Ws(u[k])) => t[r[k].o + 1] = u[k]
=============================================================================
