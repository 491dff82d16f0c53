------------------------------ MODULE XmlTrace ------------------------------
(* Each recorded line: a text, the events of the tree that xml_parse made of *)
(* it (or the position of its error), and the text decoded and encoded.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
X == INSTANCE Xml WITH Alphabet <- {}, MaxLen <- 0, r <- <<>>, src <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, phase
SameAttrs(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i] = b[j]
SameEvs(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].k = b[i].k /\ a[i].s = b[i].s /\ SameAttrs(a[i].a, b[i].a)
Explained(t, x) ==
    /\ t.dec = X!Dec(t.src) /\ t.enc = X!Enc(t.src) /\ t.prt = X!Enc(t.src)
    /\ IF x.mode = "done" THEN t.err = -1 /\ SameEvs(t.evs, x.evs) ELSE t.err \in x.errs
Init == s \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ UNCHANGED s
        /\ LET x == X!ReadXml(Trace[s].src)
           IN IF Explained(Trace[s], x) THEN phase' = "explained"
              ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, ToJson([mode |-> x.mode, evs |-> x.evs, errs |-> x.errs, dec |-> X!Dec(Trace[s].src)])>>)
Spec == Init /\ [][Next]_<<s, phase>>
=============================================================================
