----------------------------- MODULE GlobTrace -----------------------------
(* Each recorded line: a pattern, what check_glob said, the offset of the    *)
(* first wildcard, the unescaped text, and which names matched.              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
G == INSTANCE Glob WITH Alphabet <- {}, MaxPat <- 0, MaxName <- 0,
        phase <- "", pat <- <<>>, p <- <<>>, name <- <<>>, S <- {}
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, phase

Expected(t) ==
    LET p == G!Read(t.pat)
        k == G!KindOf(p)
    IN [kind |-> k,
        find |-> IF k = "error" THEN -2 ELSE G!FirstWild(t.pat, 1),
        unesc |-> IF k = "error" THEN <<>> ELSE G!Unescape(t.pat, 1),
        res |-> IF k = "error" THEN <<>>
                ELSE [i \in 1..Len(t.names) |-> IF G!Matches(p.ps, t.names[i]) THEN 1 ELSE 0]]
Observed(t) == [kind |-> t.kind, find |-> t.find, unesc |-> t.unesc, res |-> t.res]

Init == s \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ UNCHANGED s
        /\ LET e == Expected(Trace[s])
           IN IF Observed(Trace[s]) = e THEN phase' = "explained"
              ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, ToJson(e)>>)
Spec == Init /\ [][Next]_<<s, phase>>
=============================================================================
