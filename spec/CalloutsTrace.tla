---------------------------- MODULE CalloutsTrace ----------------------------
(* Each recorded line: a document, and the marks, lists, entries and words of *)
(* its output in order.  Marks are numbered in order, and an entry has the    *)
(* number of the mark that it points at and that points at it.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
C == INSTANCE Callouts WITH Docs <- {}, Defs <- {}, m <- 0, v <- 0, defs <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, phase
Explain(r) ==
    LET w == C!Result(r.doc, r.v, r.defs)
    IN IF r.failed THEN "failed"
       ELSE IF Cardinality({r.ids[i] : i \in 1..Len(r.ids)}) # Len(r.ids) THEN "ids used twice"
       ELSE IF Len(r.out) # Len(w.out) THEN "output " \o ToString(w.out)
       ELSE LET bad == {i \in 1..Len(w.out) : r.out[i] # w.out[i]}
            IN IF bad = {} THEN "" ELSE "output " \o ToString(w.out)
Init == s \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ UNCHANGED s
        /\ LET x == Explain(Trace[s])
           IN IF x = "" THEN phase' = "explained" ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, x>>)
Spec == Init /\ [][Next]_<<s, phase>>
=============================================================================
