----------------------------- MODULE PathsTrace -----------------------------
(* Each recorded line: a call, the working directory, and the results.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
P == INSTANCE Paths WITH CompSet <- {}, MaxComps <- 0, base <- <<>>, path <- <<>>, file <- FALSE, at <- <<>>, todo <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, phase
Cwd(t) == P!Follow(<<>>, t.cwd)
Docs(t) == [i \in 1..Len(t.docs) |-> [t.docs[i] EXCEPT !.dir = P!Follow(Cwd(t), @)]]
Want(t) ==
    CASE t.op = "diff" -> P!Relative(P!Follow(Cwd(t), t.a), P!Follow(Cwd(t), t.b), t.f)
      [] t.op = "esc" -> <<P!Escape(t.a), P!Partial(t.a)>>
      [] t.op = "param" -> [url |-> P!IsUrl(t.a), inside |-> P!Inside(t.a, t.b)]
      [] t.op = "xi" -> [base |-> P!BaseOf(P!Follow(Cwd(t), t.b), Docs(t)), leads |-> P!Follow(Docs(t)[Len(t.docs)].dir, t.a)]
      [] OTHER -> P!Names(t.a)
Explained(t) ==
    CASE t.op = "diff" -> P!LeadsTo(P!Follow(Cwd(t), t.a), P!Follow(Cwd(t), t.b), t.f, t.r)
      [] t.op = "url" -> P!UrlFor(t.r, t.a, t.f)
      [] t.op = "esc" -> P!Units(t.r) = P!Escape(t.a) /\ P!Units(t.r2) = P!Partial(t.a)
      [] t.op = "xi" -> /\ t.f
                        /\ P!BasesOK(P!Follow(Cwd(t), t.b), Docs(t))
                        /\ P!XincludeOK(P!Follow(Cwd(t), t.b), Docs(t), t.a, t.r)
      [] t.op = "param" -> /\ t.f = P!IsUrl(t.a)
                           /\ IF t.f THEN t.r = t.a /\ t.r2 = P!Inside(t.a, t.b)
                              ELSE /\ P!Follow(<<>>, t.r) = P!Follow(<<>>, t.a) /\ P!Absolute(t.r) = P!Absolute(t.a)
                                   /\ P!Names(t.r2) = P!Names(t.a) \o P!Names(t.b) /\ P!Absolute(t.r2) = P!Absolute(t.a)
Init == s \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ UNCHANGED s
        /\ IF Explained(Trace[s]) THEN phase' = "explained"
           ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, ToJson(Want(Trace[s]))>>)
Spec == Init /\ [][Next]_<<s, phase>>
=============================================================================
