-------------------------------- MODULE Load --------------------------------
(* Loading source files: what the program sees of the bytes on the disk.     *)
(* Files can change on the disk during a run: what was read first counts.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS Bytes, MaxLen, Names, Depth
CR == 13
LF == 10

\* the text of a file, or refusal
Marked(b, m) == Len(b) >= Len(m) /\ SubSeq(b, 1, Len(m)) = m
Refused(b) == \/ Marked(b, <<255, 254>>) \/ Marked(b, <<254, 255>>)
              \/ Marked(b, <<0, 0, 254, 255>>)
Body(b) == IF Marked(b, <<239, 187, 191>>) THEN SubSeq(b, 4, Len(b)) ELSE b
RECURSIVE Uniform(_)
Uniform(b) == IF b = <<>> THEN <<>>
              ELSE IF b[1] = CR THEN <<LF>> \o Uniform(SubSeq(b, IF Len(b) > 1 /\ b[2] = LF THEN 3 ELSE 2, Len(b)))
              ELSE <<b[1]>> \o Uniform(Tail(b))
Text(b) == Uniform(Body(b))
Pos(t, i) == <<Cardinality({k \in 1..i : t[k] = LF}) + 1,
               i - (LET B == {k \in 1..i : t[k] = LF} IN IF B = {} THEN 0 ELSE Max(B)) + 1>>

None == <<-1>>
Start == [disk |-> [n \in 1..3 |-> None], seen |-> [n \in 1..3 |-> None]]
\* result of a load: [ok, t]
Result(st, o) ==
    IF st.seen[o.n] # None THEN [ok |-> 1, t |-> st.seen[o.n]]
    ELSE IF st.disk[o.n] = None \/ Refused(st.disk[o.n]) THEN [ok |-> 0, t |-> <<>>]
    ELSE [ok |-> 1, t |-> Text(st.disk[o.n])]
Apply(st, o) ==
    CASE o.op = "put" -> [st EXCEPT !.disk[o.n] = o.t]
      [] o.op = "del" -> [st EXCEPT !.disk[o.n] = None]
      [] o.op = "load" -> LET r == Result(st, o) IN IF r.ok = 1 THEN [st EXCEPT !.seen[o.n] = r.t] ELSE st
Enabled(st, o) == CASE o.op = "del" -> st.disk[o.n] # None [] OTHER -> TRUE
Contents == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Ops == [op : {"put"}, n : Names, t : Contents] \cup [op : {"del"}, n : Names] \cup [op : {"load"}, n : Names, v : {106, 107}]
VARIABLES st, h
Init == st = Start /\ h = <<>>
Do(o) == Enabled(st, o) /\ st' = Apply(st, o) /\ h' = Append(h, o)
Next == Len(h) < Depth /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_<<st, h>>
View == st

\* ---- properties of the design
\* no CR is left, the number of lines is that of line ends, other bytes stay
Clean == \A n \in Names : st.seen[n] = None \/ \A k \in 1..Len(st.seen[n]) : st.seen[n][k] # CR
Others(t) == SelectSeq(t, LAMBDA c : c \notin {CR, LF})
Ends(b) == Cardinality({k \in 1..Len(b) : b[k] = CR \/ (b[k] = LF /\ (k = 1 \/ b[k - 1] # CR))})
Faithful == \A b \in {st.disk[n] : n \in Names} \ {None} : ~Refused(b) =>
    /\ Others(Text(b)) = Others(Body(b))
    /\ Cardinality({k \in 1..Len(Text(b)) : Text(b)[k] = LF}) = Ends(Body(b))
\* what was read once never changes
Stable == [][\A n \in Names : st.seen[n] # None => st'.seen[n] = st.seen[n]]_<<st, h>>
=============================================================================
