------------------------------ MODULE RunTrace ------------------------------
(* Each recorded line: a command line, the text of its document, the exit    *)
(* status, whether an error was reported, what was written, and whether a    *)
(* second run gave the same.                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
R == INSTANCE Run WITH c <- <<>>, stage <- "", errs <- FALSE, doc <- "", deps <- "", loc <- "", threw <- FALSE
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, phase
Cfg(t) == IF t.c.doc = "text" THEN [t.c EXCEPT !.doc = IF R!DocErrors(t.d, t.c.strict) THEN "error" ELSE "ok"] ELSE t.c
Explained(t, x) ==
    /\ t.status = x.status /\ t.errs = x.errs
    /\ t.doc = x.doc /\ t.deps = x.deps /\ t.loc = x.loc
    /\ t.same
Init == s \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ UNCHANGED s
        /\ LET x == R!Result(Cfg(Trace[s]))
           IN IF Explained(Trace[s], x) THEN phase' = "explained"
              ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, ToJson(x)>>)
Spec == Init /\ [][Next]_<<s, phase>>
=============================================================================
