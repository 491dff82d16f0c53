------------------------------ MODULE LoadGen ------------------------------
EXTENDS Load, Json
VARIABLE out
\* every content, also behind a byte order mark or a part of one
Marks == {<<>>, <<239, 187, 191>>, <<239, 187>>, <<239>>, <<255, 254>>, <<255>>, <<254, 255>>, <<254>>, <<0, 0, 254, 255>>, <<0, 0, 254>>, <<255, 254, 0, 0>>, <<0>>}
CInit == \E t \in Contents : st = [Start EXCEPT !.disk[1] = t] /\ h = <<>> /\ out = FALSE
CNext == ~out /\ out' = TRUE /\ UNCHANGED <<st, h>>
         /\ \A m \in Marks : (m = <<>> \/ Len(st.disk[1]) <= 3) =>
              PrintT(<<"@GEN", ToJson(<<[op |-> "put", n |-> 1, t |-> m \o st.disk[1]], [op |-> "load", n |-> 1, v |-> 107]>>)>>)
CSpec == CInit /\ [][CNext]_<<st, h, out>>
R(S) == RandomElement(S)
Pool == <<10, 13, 10, 13, 97, 98, 32, 9, 239, 187, 191, 200, 0, 255>>
Pick(d) == LET n == R(Names) k == R(1..7) IN
        IF k <= 2 THEN [op |-> "put", n |-> n, t |-> [i \in 1..R(0..12) |-> Pool[R(1..14)]]]
        ELSE IF k = 3 THEN [op |-> "del", n |-> n] ELSE [op |-> "load", n |-> n, v |-> R({0, 106, 107})]
RNext == \/ Len(h) < Depth /\ (\E o \in {Pick(Len(h))} : IF Enabled(st, o) THEN Do(o) ELSE UNCHANGED <<st, h>>) /\ UNCHANGED out
         \/ Len(h) = Depth /\ ~out /\ out' = TRUE /\ UNCHANGED <<st, h>> /\ PrintT(<<"@GEN", ToJson(h)>>)
RSpec == Init /\ out = FALSE /\ [][RNext]_<<st, h, out>>
=============================================================================
