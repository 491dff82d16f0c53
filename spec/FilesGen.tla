------------------------------ MODULE FilesGen ------------------------------
EXTENDS Files, Json
VARIABLE out
T0 == st.f[1].t
Out(hh) == PrintT(<<"@GEN", ToJson([t |-> T0, ops |-> hh])>>)
\* every short text, unindented whole: also behind and in front of other text
Whole(i, j, pre) == <<[op |-> "start", b |-> 1, f |-> 1]>> \o pre \o <<[op |-> "unindent", b |-> 1, i |-> i, j |-> j], [op |-> "gen", b |-> 1, i |-> j, t |-> <<NL, 120>>], [op |-> "release", b |-> 1]>>
Affix == {<<<<>>, <<>>>>, <<<<98, NL>>, <<NL, 99>>>>, <<<<SP, 98>>, <<SP, 99>>>>}
UInit == \E t \in Texts : t # <<>> /\ (\E k \in 1..Len(t) : t[k] = 97) /\ st = Start(t) /\ h = <<>> /\ out = FALSE
UNext == ~out /\ out' = TRUE /\ UNCHANGED <<st, h>>
         /\ \A a \in Affix : LET t == a[1] \o T0 \o a[2] IN
              PrintT(<<"@GEN", ToJson([t |-> t, ops |-> Whole(Len(a[1]), Len(a[1]) + Len(T0), IF a[1] = <<>> THEN <<>> ELSE <<[op |-> "add", b |-> 1, i |-> 0, j |-> Len(a[1])]>>)])>>)
USpec == UInit /\ [][UNext]_<<st, h, out>>
\* random histories
R(S) == RandomElement(S)
Letters == <<NL, NL, SP, SP, SP, TAB, 97, 97, 98, 99>>
RInit == out = FALSE /\ h = <<>> /\ st = Start(<<>>)
\* the text is chosen first (initial states are computed once per run)
Choose == h = <<>> /\ T0 = <<>> /\ \E n \in {R(4..16)} : \E f \in {[k \in 1..n |-> Letters[R(1..10)]]} : st' = Start(f) /\ UNCHANGED <<h, out>>
Len0(b) == Len(st.f[st.b[b].base].t)
Pick == LET b == R({1, 2})
            kinds == IF st.b[b].base = 0 THEN <<"start">> ELSE <<"add", "unindent", "gen", "gen", "part", "release">>
            k == kinds[R(1..Len(kinds))]
            span(n) == LET i == R(0..n) j == R(i..n) IN [i |-> i, j |-> j]
        IN CASE k = "start" -> [op |-> k, b |-> b, f |-> IF st.b[3 - b].base # 0 /\ R(1..3) > 1 THEN st.b[3 - b].base ELSE R(1..Len(st.f))]
             [] k \in {"add", "unindent"} -> LET s == span(Len0(b)) IN [op |-> k, b |-> b, i |-> IF R(1..3) = 1 THEN 0 ELSE s.i, j |-> s.j]
             [] k = "gen" -> [op |-> k, b |-> b, i |-> R(0..Len0(b)), t |-> R({<<120>>, <<NL, 120, NL>>, <<NL, NL>>, <<>>})]
             [] k = "part" -> LET s == span(Len(st.b[3 - b].t)) IN [op |-> k, b |-> b, i |-> s.i, j |-> s.j]
             [] OTHER -> [op |-> k, b |-> b]
RNext == \/ Choose
         \/ T0 # <<>> /\ Len(h) < Depth /\ (\E o \in {Pick} : IF Enabled(st, o) THEN Do(o) ELSE UNCHANGED st /\ h' = h) /\ UNCHANGED out
         \/ Len(h) = Depth /\ ~out /\ out' = TRUE /\ UNCHANGED <<st, h>> /\ Out(h)
RSpec == RInit /\ [][RNext]_<<st, h, out>>
=============================================================================
