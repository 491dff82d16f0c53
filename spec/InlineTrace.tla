----------------------------- MODULE InlineTrace -----------------------------
(* Each recorded line: a text, its place, the version, if there was an error, *)
(* what was written (x), and the text that the HTML writer made of it (h).    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
I == INSTANCE Inline WITH Pieces <- {}, MaxPieces <- 0, Versions <- {}, src <- "", at <- 0, out <- <<>>, ver <- 0, flags <- {}
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, phase
RECURSIVE Back(_)
Back(t) == IF t # "" /\ I!C(t, Len(t)) \in I!Space THEN Back(SubSeq(t, 1, Len(t) - 1)) ELSE t
Trim(t) == LET b == Back(t) IN SubSeq(b, I!Skip(b, 1, I!Space), Len(b))
\* runs of white space are one space
RECURSIVE Squeeze(_, _)
Squeeze(t, p) == IF p > Len(t) THEN "" ELSE IF I!C(t, p) \in I!Space THEN " " \o Squeeze(t, I!Skip(t, p, I!Space)) ELSE I!C(t, p) \o Squeeze(t, p + 1)
\* the text itself: without tags and entities
RECURSIVE Chars(_, _)
Chars(x, p) == IF p > Len(x) THEN ""
               ELSE IF I!At(x, p, "&lt;") THEN "<" \o Chars(x, p + 4)
               ELSE IF I!At(x, p, "&amp;") THEN "&" \o Chars(x, p + 5)
               ELSE IF I!At(x, p, "<sbr/>") THEN " " \o Chars(x, p + 6)
               ELSE IF I!C(x, p) = "<" THEN Chars(x, I!Find(x, p, ">") + 1)
               ELSE I!C(x, p) \o Chars(x, p + 1)
\* quotation marks that the HTML writer adds
WithQuotes(x) == I!Find(x, 1, "<quote>") # 0
Explain(r) ==
    LET w == I!Becomes(r.place, r.t, r.v)
    IN IF r.bad # w.bad THEN "error expected: " \o ToString(w.bad)
       ELSE IF w.bad THEN ""
       ELSE IF Trim(r.x) # Trim(w.x) THEN "written, expected " \o w.x
       ELSE IF r.html /\ ~WithQuotes(w.x) /\ Trim(Squeeze(r.h, 1)) # Trim(Squeeze(Chars(w.x, 1), 1)) THEN "in HTML, expected " \o Chars(w.x, 1)
       ELSE ""
Init == s \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ UNCHANGED s
        /\ LET x == Explain(Trace[s])
           IN IF x = "" THEN phase' = "explained" ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, x>>)
Spec == Init /\ [][Next]_<<s, phase>>
=============================================================================
