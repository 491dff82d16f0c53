------------------------------ MODULE HtmlTrace ------------------------------
(* Each recorded line: a document, the options, the pages written (name and  *)
(* events), the places that links of the pages lead to, and the status.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSets
H == INSTANCE Html
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, phase
\* the first difference between two sequences of events
Diff(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                  w == {i \in 1..m : a[i] # b[i]}
              IN IF w # {} THEN CHOOSE i \in w : \A j \in w : i <= j ELSE m + 1
At(a, i) == IF i > Len(a) THEN "the end" ELSE ToString(a[i])
Explain(t) ==
    LET want == H!Pages(t.d, t.o)
        names == {want[i].page : i \in 1..Len(want)}
        got == {t.pages[i].page : i \in 1..Len(t.pages)}
        outOf(nm) == LET i == CHOOSE j \in 1..Len(t.pages) : t.pages[j].page = nm IN t.pages[i].out
        places == UNION {{"@" \o t.pages[i].page} \cup {"@" \o t.pages[i].page \o "#" \o t.pages[i].ids[j] : j \in 1..Len(t.pages[i].ids)} : i \in 1..Len(t.pages)}
        \* (the marks of callouts have no ids: known finding)
        marks == LET m == H!Marks(t.d) IN {"@" \o pg \o "#" \o m[i].id : pg \in names, i \in 1..Len(m)}
        bad == {i \in 1..Len(want) : want[i].page \in got /\ want[i].out # outOf(want[i].page)}
        lost == {i \in 1..Len(t.pages) : \E j \in 1..Len(t.pages[i].links) : t.pages[i].links[j] \notin places \cup marks}
    IN IF t.status # 0 THEN "status " \o ToString(t.status)
       ELSE IF got # names THEN "pages " \o ToString(names)
       ELSE IF bad # {} THEN LET i == CHOOSE j \in bad : TRUE
                                 w == want[i].out
                                 o == outOf(want[i].page)
                                 m == Diff(w, o)
                             IN "page " \o want[i].page \o ", event " \o ToString(m) \o ": expected " \o At(w, m) \o ", written " \o At(o, m)
       ELSE IF lost # {} THEN LET i == CHOOSE j \in lost : TRUE IN "page " \o t.pages[i].page \o ", links without a target: " \o ToString(ToSet(t.pages[i].links) \ (places \cup marks))
       ELSE ""
Init == s \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ UNCHANGED s
        /\ LET x == Explain(Trace[s])
           IN IF x = "" THEN phase' = "explained" ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, x>>)
Spec == Init /\ [][Next]_<<s, phase>>
=============================================================================
