----------------------------- MODULE SnippetTrace -----------------------------
(* Each recorded line: a source, its language, the version, the snippets     *)
(* read from it (name, parts) and the number of errors.                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
S == INSTANCE Snippet WITH Pieces <- <<>>, MaxPieces <- 0, t <- "", py <- FALSE, s <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, phase
Explain(r) ==
    LET w == S!Snippets(r.t, r.py)
        bad == IF r.v >= 106 THEN w.bad ELSE 0
    IN IF r.bad # bad THEN "errors: " \o ToString(bad) \o ", reported " \o ToString(r.bad)
       ELSE IF r.snips # w.snips THEN "snippets " \o ToString(w.snips)
       ELSE ""
Init == s \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ UNCHANGED s
        /\ LET x == Explain(Trace[s])
           IN IF x = "" THEN phase' = "explained" ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, x>>)
Spec == Init /\ [][Next]_<<s, phase>>
=============================================================================
