------------------------------- MODULE Pretty -------------------------------
(* Pretty printing.  The document is read item by item: white space, words,  *)
(* tags, comments, listings, escaped passages.  What has to survive is the   *)
(* "sense" of the document: every item but white space, and white space (as  *)
(* one blank) where it stands between words and flow tags - not next to      *)
(* block tags, listings, comments and the ends of the document.  An end tag  *)
(* without a start is refused.                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Alphabet, Depth
LF == 10
CR == 13
\* items: [t |-> "s"], [t |-> "w", x |-> text], [t |-> "b+" or "f+", x |-> tag],
\* [t |-> "-", x |-> tag], [t |-> "b" or "f", x |-> tag], [t |-> "c", x |-> text],
\* [t |-> "p", y |-> bytes], [t |-> "e", x |-> text]
Free(i) == i.t \in {"b+", "b-", "b", "p", "c", "edge"}

\* a listing keeps its lines, but for blanks at their ends
RECURSIVE RTrim(_)
RTrim(l) == IF l # <<>> /\ l[Len(l)] = 32 THEN RTrim(SubSeq(l, 1, Len(l) - 1)) ELSE l
RECURSIVE Listing(_, _)
Listing(acc, y) ==
    IF y = <<>> THEN acc
    ELSE IF y[1] \in {LF, CR}
         THEN Listing(Append(RTrim(acc), LF), SubSeq(y, IF Len(y) > 1 /\ y[2] \in {LF, CR} \ {y[1]} THEN 3 ELSE 2, Len(y)))
         ELSE Listing(Append(acc, y[1]), Tail(y))

Edge == [t |-> "edge", x |-> ""]
Start == [stack |-> <<>>, prev |-> Edge, ws |-> FALSE, sense |-> <<>>, refused |-> FALSE]
Put(st, i) == [st EXCEPT !.sense = Append(IF st.ws /\ ~Free(st.prev) /\ ~Free(i) THEN Append(@, [t |-> "s", x |-> ""]) ELSE @,
                                          IF i.t = "p" THEN [t |-> "p", x |-> "", y |-> Listing(<<>>, i.y)] ELSE i),
                         !.prev = i, !.ws = FALSE]
Step(st, i) ==
    IF st.refused THEN st
    ELSE CASE i.t = "s" -> [st EXCEPT !.ws = TRUE]
           [] i.t \in {"b+", "f+"} -> Put([st EXCEPT !.stack = Append(@, i.t)], i)
           [] i.t = "-" -> IF st.stack = <<>> THEN [st EXCEPT !.refused = TRUE]
                           ELSE Put([st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)],
                                    [t |-> IF st.stack[Len(st.stack)] = "b+" THEN "b-" ELSE "f-", x |-> i.x])
           [] OTHER -> Put(st, i)
RECURSIVE Read(_, _)
Read(st, items) == IF items = <<>> THEN st ELSE Read(Step(st, items[1]), Tail(items))
Sense(items) == LET s == Read(Start, items) IN [refused |-> s.refused, sense |-> s.sense]

VARIABLES st, h
Init == st = Start /\ h = <<>>
\* words stand apart; end tags close what is open (or nothing)
Fits(i) == /\ (IF i.t = "w" /\ h # <<>> THEN h[Len(h)].t # "w" ELSE TRUE)
           /\ (i.t = "-" => IF st.stack = <<>> THEN Len(h) = Depth - 1 ELSE TRUE)
           /\ ~st.refused
Do(i) == Fits(i) /\ st' = Step(st, i) /\ h' = Append(h, i)
Next == Len(h) < Depth /\ \E i \in Alphabet : Do(i)
Spec == Init /\ [][Next]_<<st, h>>

\* ---- properties of the design
Raw(sense) == [k \in 1..Len(sense) |-> IF sense[k].t \in {"b-", "f-"} THEN [t |-> "-", x |-> sense[k].x] ELSE sense[k]]
\* reading the sense again gives the sense: nothing depends on the layout
Stable == ~st.refused => Sense(Raw(st.sense)).sense = st.sense
\* everything but white space survives, in order
NoWs(s) == SelectSeq(s, LAMBDA i : i.t # "s")
Kept == ~st.refused => Len(NoWs(st.sense)) = Len(NoWs(h)) /\ \A k \in 1..Len(NoWs(h)) :
           LET a == NoWs(h)[k] b == NoWs(st.sense)[k] IN a.t = b.t \/ (a.t = "-" /\ b.t \in {"b-", "f-"})
\* white space is kept wherever it separates words and flow tags
Apart == \A k \in 1..(Len(st.sense) - 1) : ~(st.sense[k].t = "s" /\ st.sense[k + 1].t = "s")
=============================================================================
