----------------------------- MODULE CleanupGen -----------------------------
EXTENDS Cleanup, TLC, Json
VARIABLE out
GInit == Init /\ out = FALSE
\* at the end of a sequence the driver closes what is open, 1 first
GNext == Next /\ (Len(h') = Depth => PrintT(<<"@GEN", ToJson(h')>>)) /\ UNCHANGED out
GSpec == GInit /\ [][GNext]_<<st, h, out>>
Emit == (Len(h) = Depth \/ \A o \in Ops : ~Enabled(st, o)) /\ ~out /\ out' = TRUE /\ UNCHANGED <<st, h>> /\ PrintT(<<"@GEN", ToJson(h)>>)
Pick == LET E == {o \in Ops : Enabled(st, o)}
            A == {o \in E : o.op = "add"}
        IN IF A # {} /\ RandomElement(1..12) > 1 THEN RandomElement(A) ELSE RandomElement(E)
RNext == (Len(h) < Depth /\ (\E o \in {Pick} : Do(o)) /\ UNCHANGED out) \/ Emit
RSpec == GInit /\ [][RNext]_<<st, h, out>>
=============================================================================
