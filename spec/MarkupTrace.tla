----------------------------- MODULE MarkupTrace -----------------------------
(* Each recorded line: the tokens of a file that the program wrote.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
M == INSTANCE Markup WITH Tokens <- {}, Most <- 0, q <- <<>>, m <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, phase
Init == s \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ UNCHANGED s
        /\ LET x == M!Wrong(Trace[s].tokens)
           IN IF x = "" THEN phase' = "explained" ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, x>>)
Spec == Init /\ [][Next]_<<s, phase>>
=============================================================================
