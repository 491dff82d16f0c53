------------------------------- MODULE RunGen -------------------------------
(* Command lines and documents with pieces that are right, doubtful or wrong *)
(* in every position.                                                        *)
EXTENDS Run, Json, TLC
VARIABLE n
CONSTANT Count
Emit(x) == PrintT(<<"@GEN", ToJson(x)>>)
Vers == {101, 104, 105, 106, 107}
NoText == [pieces |-> <<>>, ctx |-> "plain", ver |-> 107]
Case(cc, d) == [c |-> cc, d |-> d]
\* every command line with the format and output, and two more things, varied
Line(x) == Emit(Case(x, NoText))
Lines ==
    /\ \A f \in Formats, o \in Outs, d \in DocKinds : Line([Plain EXCEPT !.fmt = f, !.out = o, !.doc = d])
    /\ \A f \in {"none", "html"}, o \in Outs, p \in {"none", "ok"} : Line([Plain EXCEPT !.fmt = f, !.out = o, !.noout = TRUE, !.deps = p])
    /\ \A f \in {"none", "boostbook", "html"}, p \in DepsOuts, l \in DepsOuts, d \in {"ok", "error"} :
          Line([Plain EXCEPT !.fmt = f, !.deps = p, !.loc = l, !.doc = d])
    /\ \A f \in {"none", "html", "onehtml"}, d \in DocKinds, e \in BOOLEAN, pp \in BOOLEAN, de \in {"ok", "bad"} :
          Line([Plain EXCEPT !.fmt = f, !.doc = d, !.expect = e, !.pretty = pp, !.define = de])
    /\ \A df \in {"none", "checked", "bogus", "throw"}, x \in {"none", "ok", "missing"}, p \in {"none", "ok"}, e \in BOOLEAN :
          Line([Plain EXCEPT !.depsfmt = df, !.xbase = x, !.deps = p, !.expect = e])
TextCfg(st, f, e) == [Plain EXCEPT !.doc = "text", !.strict = st, !.fmt = f, !.expect = e, !.out = IF f = "html" THEN "dir" ELSE "file"]
GInit == Init /\ c = Plain /\ n = 0
GNext == n = 0 /\ n' = 1 /\ UNCHANGED vars
         /\ Lines
         /\ \A k \in Phrases \cup Blocks, x \in PhraseCtx \cup BlockCtx, v \in Vers :
               Allowed(k, x, v) => Emit(Case(TextCfg(FALSE, "none", FALSE), [pieces |-> <<k>>, ctx |-> x, ver |-> v]))
GSpec == GInit /\ [][GNext]_<<vars, n>>
\* several pieces, of which perhaps one is wrong
Good(k) == {p \in Phrases \cup Blocks : Effect(p, k, FALSE) \in {"ok", "warn"}}
RandText(k) ==
    LET v == RandomElement(Vers)
        x == RandomElement(PhraseCtx \cup BlockCtx)
        all == {p \in Phrases \cup Blocks : Allowed(p, x, v)}
        ok == {p \in all : Effect(p, v, FALSE) # "error"}
        m == RandomElement(1..(4 + 0 * k))
        w == RandomElement(0..m)
    IN [pieces |-> [i \in 1..m |-> RandomElement(IF i = w THEN all ELSE ok)], ctx |-> x, ver |-> v]
Pick(S, d) == IF RandomElement(1..3) = 1 THEN RandomElement(S) ELSE d
RandLine(k) == [fmt |-> RandomElement(Formats \ (IF RandomElement(1..4) = 1 THEN {} ELSE {"bogus"})), out |-> Pick(Outs, RandomElement({"default", "file", "dir"})), noout |-> Pick(BOOLEAN, FALSE),
                deps |-> Pick(DepsOuts, "none"), loc |-> Pick(DepsOuts, "none"), depsfmt |-> Pick({"none", "checked", "bogus", "throw"}, "none"),
                define |-> Pick({"none", "ok", "bad"}, "ok"), xbase |-> Pick({"none", "ok", "missing"}, "none"), expect |-> Pick(BOOLEAN, FALSE),
                strict |-> Pick(BOOLEAN, FALSE), pretty |-> Pick(BOOLEAN, RandomElement({TRUE, k >= 0})), doc |-> RandomElement({"ok", "ok", "error", "unbalanced", "version", "info", "folder", "missing"})]
RNext == n < Count /\ n' = n + 1 /\ UNCHANGED vars
         /\ IF RandomElement(1..(4 + 0 * n)) = 1 THEN Emit(Case(RandLine(n), NoText))
            ELSE Emit(Case(TextCfg(RandomElement({TRUE, FALSE}), RandomElement({"none", "html", "onehtml"}), RandomElement(1..(8 + 0 * n)) = 1), RandText(n)))
RSpec == GInit /\ [][RNext]_<<vars, n>>
=============================================================================
