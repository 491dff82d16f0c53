---------------------------- MODULE DocInfoTrace ----------------------------
(* Each recorded line: a document, whether the run failed, how many headers  *)
(* of it there are in the output, and the header read back.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
D == INSTANCE DocInfo WITH Docs <- <<>>, d <- 0, m <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, phase
Fields == {"type", "title", "id", "lang", "name", "dirname", "revision", "authors", "copyrights", "license", "purpose", "categories", "biblioids", "escaped"}
Explain(r) ==
    LET used == r.outer = 0 \/ r.outer >= 106
        w == D!HeaderOf(r)
        vs == D!Run(D!Start(r)).info["quickbook"]
        bad == IF used THEN w.bad ELSE r.before /\ vs # <<>> /\ ~D!Known(vs[1])
        wrong == {f \in Fields : r.header[f] # w[f] /\ ~(f = "id" /\ w[f] = <<>>)}
    IN IF r.bad # bad THEN "error expected: " \o ToString(bad)
       ELSE IF bad THEN ""
       ELSE IF r.headers # (IF used THEN 1 ELSE 0) THEN "headers"
       ELSE IF used /\ wrong # {} THEN ToString([f \in wrong |-> w[f]])
       ELSE ""
Init == s \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ UNCHANGED s
        /\ LET x == Explain(Trace[s])
           IN IF x = "" THEN phase' = "explained" ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, x>>)
Spec == Init /\ [][Next]_<<s, phase>>
=============================================================================
