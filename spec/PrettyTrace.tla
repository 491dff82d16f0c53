----------------------------- MODULE PrettyTrace -----------------------------
(* One recorded document: the items put in, the items read back from each    *)
(* printing (several layouts of the same items), and whether all printings   *)
(* of the layouts were the same text.                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
W == INSTANCE Pretty WITH Alphabet <- {}, Depth <- 0, st <- 0, h <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st, phase
vars == <<s, k, st, phase>>
Init == s \in 1..Len(Trace) /\ k = 0 /\ st = W!Start /\ phase = "run"
Good(o, e) == IF e.refused THEN o.refused = 1
              ELSE o.refused = 0 /\ W!Sense(o.items) = [refused |-> FALSE, sense |-> e.sense]
Next == /\ phase = "run" /\ UNCHANGED s
        /\ IF k < Len(Trace[s].items)
           THEN k' = k + 1 /\ st' = W!Step(st, Trace[s].items[k + 1]) /\ UNCHANGED phase
           ELSE /\ UNCHANGED <<k, st>>
                /\ IF /\ \A i \in 1..Len(Trace[s].outs) : Good(Trace[s].outs[i], [refused |-> st.refused, sense |-> st.sense])
                      /\ Trace[s].same = 1
                   THEN phase' = "done"
                   ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, ToJson([refused |-> st.refused, sense |-> st.sense, same |-> Trace[s].same])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
