---------------------------- MODULE HighlightTrace ----------------------------
(* Each recorded line: code, its mode and form, the version, and what came   *)
(* out of the document that had it: whether there was an error, the code     *)
(* elements, each with its items, and the callout lists after it.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
H == INSTANCE Highlight WITH Pieces <- {}, MaxPieces <- 0, t <- "", mode <- "", s <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, phase
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].k = b[i].k /\ (a[i].k = "co" \/ a[i].x = b[i].x)
Explain(r) ==
    LET code == IF r.form = "inline" THEN r.t ELSE H!BlockCode(r.t \o "\n")
        w == H!Lexed(code, r.mode, r.form = "block" /\ r.v >= 107)
        cos == SelectSeq(w.its, LAMBDA x : x.k = "co")
        got == SelectSeq(r.its, LAMBDA x : x.k = "co")
    IN IF r.bad # w.bad THEN "error expected: " \o ToString(w.bad)
       ELSE IF w.bad THEN ""
       ELSE IF r.n # 1 \/ r.form # (IF r.inline THEN "inline" ELSE "block") THEN "code elements"
       ELSE IF ~Same(r.its, w.its) THEN "items " \o ToString(w.its)
       \* one entry for each callout, in order, with ids that point at each other
       ELSE IF Len(r.list) # Len(cos) \/ r.lists # (IF cos = <<>> THEN 0 ELSE 1) THEN "callouts " \o ToString(cos)
       ELSE IF \E i \in 1..Len(cos) : got[i].x # r.list[i].refs \/ got[i].y # r.list[i].id THEN "ids of callouts"
       ELSE IF \E i, j \in 1..Len(cos) : got[i].x = got[j].y \/ (i # j /\ (got[i].x = got[j].x \/ got[i].y = got[j].y)) THEN "ids used twice"
       ELSE IF \E i \in 1..Len(cos) : r.list[i].words # H!Words(cos[i].x) THEN "text of callouts"
       ELSE ""
Init == s \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ UNCHANGED s
        /\ LET x == Explain(Trace[s])
           IN IF x = "" THEN phase' = "explained" ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, x>>)
Spec == Init /\ [][Next]_<<s, phase>>
=============================================================================
