----------------------------- MODULE ValuesGen ------------------------------
(* Behaviours of Values as test sequences: all of them up to a depth, or      *)
(* random ones (TLC -simulate) with the kinds of operation equally likely.   *)
EXTENDS Values, TLC, Json
VARIABLE out
Emit == /\ Len(h) = Depth /\ ~out /\ out' = TRUE /\ UNCHANGED <<st, h>>
        /\ PrintT(<<"@GEN", ToJson(h)>>)
GInit == Init /\ out = FALSE
GNext == (Next /\ UNCHANGED out) \/ Emit
GSpec == GInit /\ [][GNext]_<<st, h, out>>

Pick == LET E == {o \in Ops : Enabled(st, o)}
            n == RandomElement({o.op : o \in E})
        IN RandomElement({o \in E : o.op = n})
RNext == (Len(h) < Depth /\ (\E o \in {Pick} : Do(o)) /\ UNCHANGED out) \/ Emit
RSpec == GInit /\ [][RNext]_<<st, h, out>>
=============================================================================
