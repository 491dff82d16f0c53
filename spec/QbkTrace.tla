------------------------------ MODULE QbkTrace ------------------------------
(* Recorded runs of the real program against Qbk.  One behaviour per run.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Q == INSTANCE Qbk
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Fuel   \* a document that needs more steps is not judged
VARIABLES s, m, phase, n
World(i) == Trace[i].w
Init == s \in 1..Len(Trace) /\ m = Q!Start(World(s)) /\ phase = "run" /\ n = 0
Work == /\ phase = "run" /\ m.todo # <<>> /\ n < Fuel /\ n' = n + 1
        /\ m' = Q!Step(World(s), m) /\ UNCHANGED <<s, phase>>
SetOf(q) == {q[i] : i \in 1..Len(q)}
FirstDiff(a, b) == CHOOSE i \in 1..(Len(a) + Len(b) + 1) :
    /\ (i > Len(a) \/ i > Len(b) \/ a[i] # b[i])
    /\ \A j \in 1..(i - 1) : a[j] = b[j]
Around(a, i) == SubSeq(a, IF i > 6 THEN i - 6 ELSE 1, IF i + 6 > Len(a) THEN Len(a) ELSE i + 6)
\* what of the output is compared
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Tag(t) == Starts(t, "<")
Att(t) == Starts(t, "@")
Tags(names) == UNION {{"<" \o nm \o ">", "</" \o nm \o ">"} : nm \in names}
SectionTags == Tags({"article", "section", "title", "bridgehead"})
ListTags == Tags({"itemizedlist", "orderedlist", "listitem", "programlisting", "section", "footnote"})
CodeTags == Tags({"programlisting", "code", "phrase"})
BlockTags == ListTags \cup Tags({"para", "simpara", "note", "tip", "warning", "blockquote", "sidebar", "table", "informaltable",
    "title", "tgroup", "thead", "tbody", "row", "entry", "variablelist", "varlistentry", "term"})
Keep(p, t) ==
    CASE p = "all" -> TRUE
      [] p = "none" -> FALSE
      [] p = "ids" -> Starts(t, "@id=") \/ Starts(t, "@linkend=")
      [] p = "words" -> ~Tag(t) /\ ~Att(t)
      [] p = "sections" -> ~Att(t) /\ (Tag(t) => t \in SectionTags)
      [] p = "lists" -> ~Att(t) /\ (Tag(t) => t \in ListTags)
      [] p = "modes" -> (Att(t) => Starts(t, "@role=")) /\ (Tag(t) => t \in CodeTags)
      [] p = "blocks" -> ~Att(t) /\ (Tag(t) => t \in BlockTags)
      [] p = "content" -> Att(t) => Starts(t, "@role=")
Project(q) == LET p == Trace[s].p IN SelectSeq(q, LAMBDA t : Keep(p, t))
Skip == phase = "run" /\ (m.un \/ n = Fuel) /\ PrintT(<<"@SKIP", s>>) /\ UNCHANGED <<s, m, n>> /\ phase' = "unspecified"
Judge == /\ phase = "run" /\ m.todo = <<>> /\ ~m.un /\ n < Fuel /\ UNCHANGED <<s, m, n>>
         /\ LET o == Trace[s].obs
                r == Project(Q!Result(m))
                out == Project(o.out)
                bad == (IF r # out
                        THEN LET i == FirstDiff(r, out) IN
                             PrintT(<<"@BAD", s, ToJson([at |-> i, expected |-> Around(r, i), observed |-> Around(out, i)])>>)
                        ELSE FALSE)
                       \/ (IF "deps" \in DOMAIN o /\ m.deps # SetOf(o.deps)
                           THEN PrintT(<<"@BAD", s, ToJson([deps_expected |-> m.deps, deps_observed |-> SetOf(o.deps)])>>)
                           ELSE FALSE)
                       \/ (LET e == {d[1] : d \in {x \in m.deps : x[2] /\ ~Starts(x[1], "g ")}} IN
                           IF "plain" \in DOMAIN o /\ e # SetOf(o.plain)
                           THEN PrintT(<<"@BAD", s, ToJson([plain_list_expected |-> e, plain_list_observed |-> SetOf(o.plain)])>>)
                           ELSE FALSE)
            IN phase' = IF bad THEN "rejected" ELSE "accepted"
Next == Work \/ Judge \/ Skip
Spec == Init /\ [][Next]_<<s, m, phase, n>>
=============================================================================
