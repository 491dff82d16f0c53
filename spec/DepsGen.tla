------------------------------- MODULE DepsGen -------------------------------
EXTENDS Deps, Json
VARIABLE out
P3 == {<<100, 45>>, <<100, 47, 10>>, <<92, 110>>}
\* a file name: letters, and what has to be escaped; a directory
P20 == {<<97>>, <<97, 45>>, <<97, 98>>, <<98>>, <<66>>, <<97, 10>>, <<92>>, <<92, 92>>, <<92, 110>>, <<127>>, <<195, 169>>, <<100, 47, 97>>,
        <<100, 45>>, <<100, 47, 98>>, <<100, 47, 101, 47, 97>>, <<100, 47, 1>>, <<32, 97>>, <<97, 32>>, <<16>>, <<15>>, <<31>>, <<46, 46, 47, 113>>,
        <<43, 32, 97>>, <<45, 32>>, <<103, 32, 42>>, <<42, 46, 113>>, <<7>>, <<8>>, <<9>>, <<11>>, <<12>>, <<13>>, <<14>>, <<6>>, <<255>>, <<128, 48>>}
Writes == [i \in 1..4 |-> [op |-> "write", f |-> i - 1]]
GInit == Init /\ out = FALSE
GOps == {o \in Ops : o.op # "write"}
GNext == /\ Len(h) < Depth /\ \E o \in GOps : Do(o)
         /\ (Len(h') = Depth => PrintT(<<"@GEN", ToJson(h' \o Writes)>>)) /\ UNCHANGED out
GSpec == GInit /\ [][GNext]_<<st, h, out>>
Emit == Len(h) = Depth /\ ~out /\ out' = TRUE /\ UNCHANGED <<st, h>> /\ PrintT(<<"@GEN", ToJson(h \o Writes)>>)
Pick == LET E == {o \in Ops : Enabled(st, o)}
            n == RandomElement({"create", "delete", "dep", "dep", "glob", "match", "write"})
        IN IF \E o \in E : o.op = n THEN RandomElement({o \in E : o.op = n}) ELSE RandomElement(E)
RNext == (Len(h) < Depth /\ (\E o \in {Pick} : Do(o)) /\ UNCHANGED out) \/ Emit
RSpec == GInit /\ [][RNext]_<<st, h, out>>
=============================================================================
