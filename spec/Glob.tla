-------------------------------- MODULE Glob --------------------------------
(* File name patterns.  A pattern is read one character at a time by a small *)
(* automaton that builds a list of pieces or ends in an error; a name is      *)
(* then read one character at a time, keeping the set of all positions in    *)
(* the list of pieces that the text read so far can have reached.  (The code *)
(* instead matches greedily section by section, left to right.)              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

BSL == 92  LBR == 91  RBR == 93  STAR == 42  QM == 63  CARET == 94  DASH == 45  SLASH == 47

(* ---------------------------------------------------------------- pattern *)
\* A piece: [k |-> "chr", c], [k |-> "any"], [k |-> "star"],
\*          [k |-> "set", inv, r] with r a set of pairs <<low, high>>
Chr(c) == [k |-> "chr", c |-> c, inv |-> FALSE, r |-> {}]
AnyChr == [k |-> "any", c |-> 0, inv |-> FALSE, r |-> {}]
Star == [k |-> "star", c |-> 0, inv |-> FALSE, r |-> {}]
SetOf(inv, r) == [k |-> "set", c |-> 0, inv |-> inv, r |-> r]

\* Reader modes: "text", "esc" (after \), "open" (just after [), "cls",
\* "clsesc" (after \ in a class), "dash" (after x-), "dashesc" (after x-\),
\* "err".  lo is the pending single character of a class (-1: none).
PInit == [mode |-> "text", ps |-> <<>>, inv |-> FALSE, r |-> {}, lo |-> -1,
          glob |-> FALSE, ascii |-> TRUE]

Flush(p) == IF p.lo >= 0 THEN p.r \cup {<<p.lo, p.lo>>} ELSE p.r
Err(p) == [p EXCEPT !.mode = "err"]

\* the end of a class: pend is a pending "x-" whose '-' is literal
CloseCls(p, r) == [p EXCEPT !.mode = "text", !.ps = Append(p.ps, SetOf(p.inv, r)),
                            !.r = {}, !.lo = -1, !.inv = FALSE]

\* an element c of a class, either escaped or plain
ClsElem(p, c, inDash) ==
    IF inDash THEN [p EXCEPT !.mode = "cls", !.r = p.r \cup {<<p.lo, c>>}, !.lo = -1]
    ELSE [p EXCEPT !.mode = "cls", !.r = Flush(p), !.lo = c]

PStepMode(p, c) ==
    CASE p.mode = "err" -> p
      [] p.mode = "text" ->
           (CASE c = BSL -> [p EXCEPT !.mode = "esc"]
              [] c = LBR -> [p EXCEPT !.mode = "open", !.glob = TRUE, !.r = {}, !.lo = -1, !.inv = FALSE]
              [] c = RBR -> Err(p)
              [] c = QM -> [p EXCEPT !.ps = Append(p.ps, AnyChr), !.glob = TRUE]
              [] c = STAR -> IF p.ps # <<>> /\ p.ps[Len(p.ps)] = Star THEN Err(p)
                             ELSE [p EXCEPT !.ps = Append(p.ps, Star), !.glob = TRUE]
              [] OTHER -> [p EXCEPT !.ps = Append(p.ps, Chr(c))])
      [] p.mode = "esc" ->
           IF c \in {BSL, SLASH} THEN Err(p) ELSE [p EXCEPT !.mode = "text", !.ps = Append(p.ps, Chr(c))]
      [] p.mode \in {"open", "cls"} ->
           (CASE c = RBR -> IF p.mode = "open" /\ ~p.inv THEN Err(p) ELSE CloseCls(p, Flush(p))
              [] c = LBR \/ c = SLASH -> Err(p)
              [] c = BSL -> [p EXCEPT !.mode = "clsesc"]
              [] c = CARET /\ p.mode = "open" /\ ~p.inv -> [p EXCEPT !.inv = TRUE]
              [] c = DASH /\ p.lo >= 0 -> [p EXCEPT !.mode = "dash"]
              [] OTHER -> ClsElem(p, c, FALSE))
      [] p.mode = "clsesc" -> IF c \in {BSL, SLASH} THEN Err(p) ELSE ClsElem(p, c, FALSE)
      [] p.mode = "dash" ->
           (CASE c = RBR -> CloseCls(p, p.r \cup {<<p.lo, p.lo>>, <<DASH, DASH>>})
              [] c = LBR \/ c = SLASH -> Err(p)
              [] c = BSL -> [p EXCEPT !.mode = "dashesc"]
              [] OTHER -> ClsElem(p, c, TRUE))
      [] p.mode = "dashesc" -> IF c \in {BSL, SLASH} THEN Err(p) ELSE ClsElem(p, c, TRUE)

PStep(p, c) == LET q == PStepMode(p, c)
               IN [q EXCEPT !.ascii = q.ascii /\ c >= 32 /\ c < 128]

Read(pat) == FoldLeft(PStep, PInit, pat)

\* What a pattern is: "error", "glob" or "plain" (no wildcards: a plain path)
KindOf(p) == IF p.mode # "text" \/ (p.glob /\ ~p.ascii) THEN "error"
             ELSE IF p.glob THEN "glob" ELSE "plain"

(* ------------------------------------------------------------------- name *)
PieceMatches(a, c) ==
    CASE a.k = "chr" -> a.c = c
      [] a.k = "any" -> TRUE
      [] a.k = "set" -> (\E x \in a.r : x[1] <= c /\ c <= x[2]) # a.inv
      [] OTHER -> FALSE

\* positions reachable without reading anything ('*' may match nothing)
Close(ps, S) == S \cup {i + 1 : i \in {j \in S : j <= Len(ps) /\ ps[j] = Star}}

MInit(ps) == Close(ps, {1})
MStep(ps, S, c) ==
    Close(ps, {i \in S : i <= Len(ps) /\ ps[i] = Star}
              \cup {i + 1 : i \in {j \in S : j <= Len(ps) /\ PieceMatches(ps[j], c)}})

\* an empty name is only matched by an empty pattern ('*' is not a name)
Matches(ps, name) ==
    IF name = <<>> THEN ps = <<>>
    ELSE (Len(ps) + 1) \in FoldLeft(LAMBDA S, c : MStep(ps, S, c), MInit(ps), name)

\* Declarative meaning, for checking the automaton: the name can be cut into
\* one chunk per piece
RECURSIVE Splits(_, _)
Splits(ps, name) ==
    IF ps = <<>> THEN name = <<>>
    ELSE IF Head(ps) = Star THEN \E n \in 0..Len(name) : Splits(Tail(ps), SubSeq(name, n + 1, Len(name)))
    ELSE name # <<>> /\ PieceMatches(Head(ps), Head(name)) /\ Splits(Tail(ps), Tail(name))

(* -------------------------------------- first wildcard, and unescaped text *)
RECURSIVE FirstWild(_, _)
FirstWild(pat, i) ==       \* 0-based offset of the first unescaped wildcard, -1 if none
    IF i > Len(pat) THEN -1
    ELSE IF pat[i] = BSL THEN FirstWild(pat, i + 2)
    ELSE IF pat[i] \in {LBR, RBR, QM, STAR} THEN i - 1
    ELSE FirstWild(pat, i + 1)

RECURSIVE Unescape(_, _)
Unescape(pat, i) ==
    IF i > Len(pat) THEN <<>>
    ELSE IF pat[i] = BSL THEN (IF i < Len(pat) THEN <<pat[i + 1]>> ELSE <<>>) \o Unescape(pat, i + 2)
    ELSE <<pat[i]>> \o Unescape(pat, i + 1)

(* ---------------------------------------------------------- state machine *)
CONSTANTS Alphabet, MaxPat, MaxName
VARIABLES phase, pat, p, name, S
vars == <<phase, pat, p, name, S>>

Init == phase = "pattern" /\ pat = <<>> /\ p = PInit /\ name = <<>> /\ S = {}
ReadPattern(c) == /\ phase = "pattern" /\ Len(pat) < MaxPat
                  /\ pat' = Append(pat, c) /\ p' = PStep(p, c)
                  /\ UNCHANGED <<phase, name, S>>
StartName == /\ phase = "pattern" /\ KindOf(p) # "error"
             /\ phase' = "name" /\ S' = MInit(p.ps) /\ UNCHANGED <<pat, p, name>>
ReadName(c) == /\ phase = "name" /\ Len(name) < MaxName
               /\ name' = Append(name, c) /\ S' = MStep(p.ps, S, c)
               /\ UNCHANGED <<phase, pat, p>>
Next == (\E c \in Alphabet : ReadPattern(c)) \/ StartName \/ (\E c \in Alphabet \ {SLASH, BSL} : ReadName(c))
Spec == Init /\ [][Next]_vars

AutomatonRight ==
    phase = "name" => ((Len(p.ps) + 1) \in S) = Splits(p.ps, name)
\* reading never leaves a half-open class in an accepted pattern, and an
\* accepted pattern has no '*' next to another
AcceptedOK ==
    KindOf(p) # "error" => /\ p.lo = -1
                           /\ \A i \in 1..Len(p.ps) - 1 : ~(p.ps[i] = Star /\ p.ps[i + 1] = Star)
\* a plain path contains no unescaped wildcard, and matches only its own text
PlainOK ==
    (phase = "name" /\ KindOf(p) = "plain") =>
        /\ FirstWild(pat, 1) = -1
        /\ Splits(p.ps, name) = (name = Unescape(pat, 1))
ErrorSticks == [][p.mode = "err" => p'.mode = "err"]_vars
=============================================================================
