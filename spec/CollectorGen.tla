---------------------------- MODULE CollectorGen ----------------------------
EXTENDS Collector, Json
VARIABLE out
\* collectors differ in how they were made only, so the exhaustive part takes
\* one of them (C) and always ends in a look at everything
CONSTANT C
GOps == {o \in SmallOps : ("c" \in DOMAIN o => o.c = C) /\ (o.op = "ext" => C = 2)}
GInit == Init /\ out = FALSE
RECURSIVE Looks(_)
Looks(s) == LET c == CHOOSE x \in {1, 2} : TRUE IN
    <<[op |-> "read", c |-> 1], [op |-> "read", c |-> 2]>> \o
    (IF Len(s.c[1]) > 1 THEN <<[op |-> "pop", c |-> 1]>> \o Looks(Apply(s, [op |-> "pop", c |-> 1]))
     ELSE IF Len(s.c[2]) > 1 THEN <<[op |-> "pop", c |-> 2]>> \o Looks(Apply(s, [op |-> "pop", c |-> 2])) ELSE <<>>)
GNext == /\ Len(h) < Depth /\ \E o \in GOps : Do(o)
         /\ (Len(h') = Depth => PrintT(<<"@GEN", ToJson(h' \o Looks(st'))>>)) /\ UNCHANGED out
GSpec == GInit /\ [][GNext]_<<st, h, out>>
Emit == Len(h) = Depth /\ ~out /\ out' = TRUE /\ UNCHANGED <<st, h>> /\ PrintT(<<"@GEN", ToJson(h \o Looks(st))>>)
Pick == LET E == {o \in Ops : Enabled(st, o)}
            n == RandomElement({"write", "write", "read", "push", "pop", "swap", "append", "clear", "ext"})
        IN IF \E o \in E : o.op = n THEN RandomElement({o \in E : o.op = n}) ELSE RandomElement(E)
RNext == (Len(h) < Depth /\ (\E o \in {Pick} : Do(o)) /\ UNCHANGED out) \/ Emit
RSpec == GInit /\ [][RNext]_<<st, h, out>>
=============================================================================
