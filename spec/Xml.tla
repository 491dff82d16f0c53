--------------------------------- MODULE Xml ---------------------------------
(* Reading XML.  The reader takes one character at a time; it keeps the      *)
(* stack of open elements and the sequence of things read so far (its events:*)
(* open with attributes, text, close).  A text ends in "done" or in an error *)
(* with the position it points at.                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LT == 60  GT == 62  SL == 47  QM == 63  EX == 33  EQ == 61  DQ == 34  SQ == 39  AMP == 38
LB == 91  RB == 93  HASH == 35  SEMI == 59  DASH == 45
WS == {32, 9, 10, 13}
NameChars == (97..122) \cup (65..90) \cup (48..57) \cup {58, 45, 95, 46}
CdataOpen == <<91, 67, 68, 65, 84, 65, 91>>       \* [CDATA[

(* -------------------------------------------------------------- decoding *)
Utf8(n) ==
    IF n < 128 THEN <<n>>
    ELSE IF n < 2048 THEN <<192 + n \div 64, 128 + (n % 64)>>
    ELSE IF n < 65536 THEN <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
    ELSE IF n < 1114112 THEN <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
    ELSE <<239, 191, 189>>

StartsAt(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
Named == << <<<<97, 109, 112, 59>>, 38>>, <<<<97, 112, 111, 115, 59>>, 39>>, <<<<103, 116, 59>>, 62>>,
            <<<<108, 116, 59>>, 60>>, <<<<113, 117, 111, 116, 59>>, 34>> >>
HexDigit(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
\* end of the run of digits starting at i
RECURSIVE RunEnd(_, _, _)
RunEnd(t, i, hex) ==
    IF i <= Len(t) /\ (IF hex THEN HexDigit(t[i]) ELSE t[i] \in 48..57) THEN RunEnd(t, i + 1, hex) ELSE i
Number(t, i, j, hex) ==
    FoldLeft(LAMBDA a, c : LET v == a * (IF hex THEN 16 ELSE 10) + HexVal(c) IN IF v > 2000000 THEN 2000000 ELSE v,
             0, SubSeq(t, i, j - 1))
\* the numeric reference starting at the '&' at i: <<value, next>> or <<-1, 0>>
NumRef(t, i) ==
    LET hex == i + 2 <= Len(t) /\ t[i + 2] = 120
        b == IF hex THEN i + 3 ELSE i + 2
        j == RunEnd(t, b, hex)
    IN IF ~(i + 1 <= Len(t) /\ t[i + 1] = HASH) \/ j = b THEN <<-1, 0>>
       ELSE <<Number(t, b, j, hex), IF j <= Len(t) /\ t[j] = SEMI THEN j + 1 ELSE j>>
RECURSIVE Decode(_, _)
Decode(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] # AMP THEN <<t[i]>> \o Decode(t, i + 1)
    ELSE LET n == NumRef(t, i)
             k == SelectInSeq(Named, LAMBDA e : StartsAt(t, i + 1, e[1]))
         IN IF n[1] >= 0 THEN Utf8(n[1]) \o Decode(t, n[2])
            ELSE IF k > 0 THEN <<Named[k][2]>> \o Decode(t, i + 1 + Len(Named[k][1]))
            ELSE <<AMP>> \o Decode(t, i + 1)
Dec(t) == Decode(t, 1)

EncChar(c) == CASE c = LT -> <<38, 108, 116, 59>> [] c = GT -> <<38, 103, 116, 59>>
                [] c = AMP -> <<38, 97, 109, 112, 59>> [] c = DQ -> <<38, 113, 117, 111, 116, 59>> [] OTHER -> <<c>>
Enc(t) == FoldLeft(LAMBDA a, c : a \o EncChar(c), <<>>, t)

(* ---------------------------------------------------------------- reading *)
\* An event: [k |-> "open", s |-> name, a |-> <<[n, v]...>>], [k |-> "text", s], [k |-> "close", s |-> <<>>]
Ev(k, s, a) == [k |-> k, s |-> s, a |-> a]

\* modes: text; lt (after <); name0, name (reading the element's name); tag
\* (between attributes); self (after / in a tag); an (attribute name); ane
\* (white space after it); eq (after =); val (quoted value); cl0, cl (name of
\* a close tag), cle (after it); pi, piq (quoted text in it); ex (after <!),
\* exd (after <!-), com, decl, declq, cdo (in [CDATA[), cdata; done; err
RInit == [mode |-> "text", pos |-> 0, start |-> 0, q |-> 0, qpos |-> 0, t |-> <<>>, name |-> <<>>,
          an |-> <<>>, attrs |-> <<>>, stack |-> <<>>, opens |-> <<>>, evs |-> <<>>, errs |-> {}, pend |-> <<>>]

AddText(evs, t) ==
    IF t = <<>> THEN evs
    ELSE IF evs # <<>> /\ evs[Len(evs)].k = "text"
    THEN [evs EXCEPT ![Len(evs)].s = @ \o t] ELSE Append(evs, Ev("text", t, <<>>))
SetAttr(as, n, v) ==
    LET i == SelectInSeq(as, LAMBDA x : x.n = n)
    IN IF i > 0 THEN [as EXCEPT ![i].v = v] ELSE Append(as, [n |-> n, v |-> v])

\* the error points at the offending tag, or at the string that never ends
Bad(r) == [r EXCEPT !.mode = "err", !.errs = {r.start}]
BadStr(r) == [r EXCEPT !.mode = "err", !.errs = {r.qpos}]

Opened(r) == [r EXCEPT !.mode = "text", !.evs = Append(@, Ev("open", r.name, r.attrs)),
                       !.stack = Append(@, r.name), !.opens = Append(@, r.start)]
SelfClosed(r) == [r EXCEPT !.mode = "text", !.evs = @ \o <<Ev("open", r.name, r.attrs), Ev("close", <<>>, <<>>)>>]
Closed(r) == IF r.stack = <<>> \/ r.stack[Len(r.stack)] # r.name THEN Bad(r)
             ELSE [r EXCEPT !.mode = "text", !.evs = Append(@, Ev("close", <<>>, <<>>)),
                            !.stack = Front(@), !.opens = Front(@)]

InTag(r, c) ==      \* between the attributes of a tag
    CASE c \in WS -> [r EXCEPT !.mode = "tag"]
      [] c = GT -> Opened(r)
      [] c = SL -> [r EXCEPT !.mode = "self"]
      [] c \in NameChars -> [r EXCEPT !.mode = "an", !.an = <<c>>]
      [] OTHER -> Bad(r)
\* after an attribute's name without a value
NoValue(r) == [r EXCEPT !.attrs = SetAttr(@, r.an, <<>>)]

\* Q is the character's own position
StepMode(r, c, Q) ==
    CASE r.mode = "text" ->
            IF c = LT THEN [r EXCEPT !.mode = "lt", !.start = Q, !.name = <<>>, !.attrs = <<>>, !.an = <<>>, !.t = <<>>]
            ELSE [r EXCEPT !.evs = AddText(@, <<c>>)]
      [] r.mode = "lt" ->
            (CASE c = QM -> [r EXCEPT !.mode = "pi"]
               [] c = EX -> [r EXCEPT !.mode = "ex"]
               [] c = SL -> [r EXCEPT !.mode = "cl0"]
               [] c \in WS -> [r EXCEPT !.mode = "name0"]
               [] c \in NameChars -> [r EXCEPT !.mode = "name", !.name = <<c>>]
               [] OTHER -> Bad(r))
      [] r.mode = "name0" ->
            IF c \in WS THEN r ELSE IF c \in NameChars THEN [r EXCEPT !.mode = "name", !.name = <<c>>] ELSE Bad(r)
      [] r.mode = "name" -> IF c \in NameChars THEN [r EXCEPT !.name = Append(@, c)] ELSE InTag(r, c)
      [] r.mode = "tag" -> InTag(r, c)
      [] r.mode = "self" -> IF c \in WS THEN r ELSE IF c = GT THEN SelfClosed(r) ELSE Bad(r)
      [] r.mode \in {"an", "ane"} ->
            (CASE c \in NameChars /\ r.mode = "an" -> [r EXCEPT !.an = Append(@, c)]
               [] c \in WS -> [r EXCEPT !.mode = "ane"]
               [] c = EQ -> [r EXCEPT !.mode = "eq"]
               [] OTHER -> InTag(NoValue(r), c))
      [] r.mode = "eq" ->
            (CASE c \in WS -> r
               [] c \in {DQ, SQ} -> [r EXCEPT !.mode = "val", !.q = c, !.qpos = Q, !.t = <<>>]
               [] OTHER -> Bad(r))
      [] r.mode = "val" ->
            IF c = r.q THEN [r EXCEPT !.mode = "tag", !.attrs = SetAttr(@, r.an, Dec(r.t))]
            ELSE [r EXCEPT !.t = Append(@, c)]
      [] r.mode = "cl0" ->
            IF c \in WS THEN r ELSE IF c \in NameChars THEN [r EXCEPT !.mode = "cl", !.name = <<c>>] ELSE Bad(r)
      [] r.mode \in {"cl", "cle"} ->
            (CASE c \in NameChars /\ r.mode = "cl" -> [r EXCEPT !.name = Append(@, c)]
               [] c \in WS -> [r EXCEPT !.mode = "cle"]
               [] c = GT -> Closed(r)
               [] OTHER -> Bad(r))
      [] r.mode = "pi" ->
            (CASE c = GT /\ r.t # <<>> /\ r.t[Len(r.t)] = QM -> [r EXCEPT !.mode = "text", !.t = <<>>]
               [] c \in {LT, GT} -> Bad(r)
               [] c \in {DQ, SQ} -> [r EXCEPT !.mode = "piq", !.q = c, !.qpos = Q, !.t = <<>>]
               [] OTHER -> [r EXCEPT !.t = <<c>>])
      [] r.mode = "piq" -> IF c = r.q THEN [r EXCEPT !.mode = "pi"] ELSE r
      [] r.mode \in {"ex", "decl"} ->
            (CASE c = DASH /\ r.mode = "ex" -> [r EXCEPT !.mode = "exd"]
               [] c = LB /\ r.mode = "ex" -> [r EXCEPT !.mode = "cdo", !.t = <<LB>>]
               [] c = GT -> [r EXCEPT !.mode = "text", !.t = <<>>]
               [] c = LT -> Bad(r)
               [] c \in {DQ, SQ} -> [r EXCEPT !.mode = "declq", !.q = c, !.qpos = Q]
               [] OTHER -> [r EXCEPT !.mode = "decl"])
      [] r.mode = "declq" -> IF c = r.q THEN [r EXCEPT !.mode = "decl"] ELSE r
      [] r.mode = "exd" ->
            (CASE c = DASH -> [r EXCEPT !.mode = "com", !.t = <<>>]
               [] c = GT -> [r EXCEPT !.mode = "text", !.t = <<>>]
               [] c = LT -> Bad(r)
               [] c \in {DQ, SQ} -> [r EXCEPT !.mode = "declq", !.q = c, !.qpos = Q]
               [] OTHER -> [r EXCEPT !.mode = "decl"])
      [] r.mode = "com" ->
            LET t == Append(r.t, c) n == Len(t)
            IN IF n >= 3 /\ SubSeq(t, n - 2, n) = <<DASH, DASH, GT>> THEN [r EXCEPT !.mode = "text", !.t = <<>>]
               ELSE [r EXCEPT !.t = t]
      [] r.mode = "cdo" ->
            LET t == Append(r.t, c)
            IN IF t = CdataOpen THEN [r EXCEPT !.mode = "cdata", !.t = <<>>]
               ELSE IF IsPrefix(t, CdataOpen) THEN [r EXCEPT !.t = t]
               ELSE IF c = GT THEN [r EXCEPT !.mode = "text", !.t = <<>>]
               ELSE IF c = LT THEN Bad(r)
               ELSE IF c \in {DQ, SQ} THEN [r EXCEPT !.mode = "declq", !.q = c, !.qpos = Q]
               ELSE [r EXCEPT !.mode = "decl"]
      [] r.mode = "cdata" ->
            LET t == Append(r.t, c) n == Len(t)
            IN IF n >= 3 /\ SubSeq(t, n - 2, n) = <<RB, RB, GT>>
               THEN [r EXCEPT !.mode = "text", !.t = <<>>, !.evs = AddText(@, Enc(SubSeq(t, 1, n - 3)))]
               ELSE [r EXCEPT !.t = t]
      [] OTHER -> r      \* err: the rest is not looked at

Step(r, c) == LET x == StepMode(r, c, r.pos) IN [x EXCEPT !.pos = r.pos + 1]
\* the text ends
End(r) == CASE r.mode = "err" -> r
            [] r.mode = "text" -> IF r.stack = <<>> THEN [r EXCEPT !.mode = "done"]
                                  ELSE [r EXCEPT !.mode = "err", !.errs = {r.opens[Len(r.opens)]}]
            [] r.mode \in {"val", "piq", "declq"} -> BadStr(r)
            [] OTHER -> Bad(r)
ReadXml(s) == End(FoldLeft(Step, RInit, s))

(* ---------------------------------------------------------------- writing *)
\* the plain way to write events down
WriteAttrs(as) == FoldLeft(LAMBDA a, x : a \o <<32>> \o x.n \o <<EQ, DQ>> \o Enc(x.v) \o <<DQ>>, <<>>, as)
RECURSIVE WriteEvs(_, _)
WriteEvs(evs, open) ==
    IF evs = <<>> THEN <<>>
    ELSE LET e == Head(evs)
         IN CASE e.k = "open" -> <<LT>> \o e.s \o WriteAttrs(e.a) \o <<GT>> \o WriteEvs(Tail(evs), Append(open, e.s))
              [] e.k = "text" -> e.s \o WriteEvs(Tail(evs), open)
              [] OTHER -> <<LT, SL>> \o open[Len(open)] \o <<GT>> \o WriteEvs(Tail(evs), Front(open))

(* ---------------------------------------------------------- state machine *)
CONSTANTS Alphabet, MaxLen
VARIABLES r, src
vars == <<r, src>>
Init == r = RInit /\ src = <<>>
Read(c) == Len(src) < MaxLen /\ r.mode \notin {"done", "err"} /\ src' = Append(src, c) /\ r' = Step(r, c)
Finish == r.mode # "done" /\ r' = End(r) /\ UNCHANGED src
Next == Finish \/ \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

Depth(evs, i) == Cardinality({j \in 1..i : evs[j].k = "open"}) - Cardinality({j \in 1..i : evs[j].k = "close"})
\* what has been read is properly nested, and complete when accepted
Nested == /\ \A i \in 1..Len(r.evs) : Depth(r.evs, i) >= 0
          /\ Depth(r.evs, Len(r.evs)) = Len(r.stack)
          /\ (r.mode = "done" => r.stack = <<>>)
\* text never contains a raw '<', and no two texts are neighbours
TextOK == \A i \in 1..Len(r.evs) : r.evs[i].k = "text" =>
              /\ LT \notin Range(r.evs[i].s)
              /\ (i > 1 => r.evs[i - 1].k # "text")
\* an error points at a '<' or at the quote of a string
PointsAtFault == r.mode = "err" => \A e \in r.errs : e \in 0..Len(src) - 1 /\ src[e + 1] \in {LT, DQ, SQ}
\* writing what was read, and reading it again, gives the same
WriteRead == r.mode = "done" => LET x == ReadXml(WriteEvs(r.evs, <<>>)) IN x.mode = "done" /\ x.evs = r.evs
DecEnc == Dec(Enc(src)) = src
=============================================================================
