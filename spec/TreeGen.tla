------------------------------ MODULE TreeGen ------------------------------
(* Test sequences: one way to reach each state and every call in it, or      *)
(* random ones.                                                               *)
EXTENDS Tree, TLC, Json
VARIABLE out
GInit == Init /\ out = FALSE
GNext == Next /\ PrintT(<<"@GEN", ToJson(h')>>) /\ UNCHANGED out
GSpec == GInit /\ [][GNext]_<<st, h, out>>
Emit == (Len(h) = Depth \/ \A o \in Ops : ~Enabled(st, o)) /\ ~out /\ out' = TRUE /\ UNCHANGED <<st, h>> /\ PrintT(<<"@GEN", ToJson(h)>>)
Pick == LET E == {o \in Ops : Enabled(st, o)}
            n == RandomElement({o.op : o \in E} \cup {"add"})
        IN IF \E o \in E : o.op = n THEN RandomElement({o \in E : o.op = n}) ELSE RandomElement(E)
RNext == (Len(h) < Depth /\ (\E o \in {Pick} : Do(o)) /\ UNCHANGED out) \/ Emit
RSpec == GInit /\ [][RNext]_<<st, h, out>>
=============================================================================
