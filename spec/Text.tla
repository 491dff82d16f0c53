-------------------------------- MODULE Text --------------------------------
(* Reading texts character by character.  Texts are strings; places in them  *)
(* count from 1, and the place behind the last character is Len + 1.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Blank == {" ", "\t"}
Space == {" ", "\t", "\n", "\r", "\f"}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Alpha == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
          "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
WordStart == Alpha \cup {"_"}
WordChar == WordStart \cup Digit
At(t, p, s) == p + Len(s) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(s) - 1) = s
In(t, p, S) == p <= Len(t) /\ SubSeq(t, p, p) \in S
Atend(t, p) == p > Len(t)
\* the text from p up to before q
Cut(t, p, q) == SubSeq(t, p, q - 1)
RECURSIVE Skip(_, _, _)
Skip(t, p, S) == IF In(t, p, S) THEN Skip(t, p + 1, S) ELSE p
\* the first place of s from p on, 0 if there is none
RECURSIVE Find(_, _, _)
Find(t, p, s) == IF p > Len(t) THEN 0 ELSE IF At(t, p, s) THEN p ELSE Find(t, p + 1, s)
\* the end of the line
LineEnd(t, p) == LET q == Find(t, p, "\n") IN IF q = 0 THEN Len(t) + 1 ELSE q
Word(t, p) == IF In(t, p, WordStart) THEN Skip(t, p + 1, WordChar) ELSE p
Chars(t) == [k \in 1..Len(t) |-> SubSeq(t, k, k)]
Solid(t) == \E k \in 1..Len(t) : SubSeq(t, k, k) \notin Space

(* Unindenting: leading blank lines and the indentation that all lines share *)
(* go.  (spec/Files.tla has it with tabs that mix with spaces.)              *)
Lines(t) == LET nls == SetToSortSeq({k \in 1..Len(t) : SubSeq(t, k, k) = "\n"}, <)
                ends == nls \o <<Len(t) + 1>>
            IN [i \in 1..Len(ends) |-> Cut(t, IF i = 1 THEN 1 ELSE ends[i - 1] + 1, ends[i])]
Indent(l) == Skip(l, 1, Blank) - 1
Joined(ls) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE "\n") \o ls[i], "", [i \in 1..Len(ls) |-> i])
\* only for texts without tabs
Unindent(t) ==
    IF ~Solid(t) THEN ""
    ELSE LET all == Lines(t)
             first == Min({i \in 1..Len(all) : Solid(all[i])})
             ls == SubSeq(all, first, Len(all))
             ind == Min({Indent(ls[i]) : i \in {j \in 1..Len(ls) : Solid(ls[j])}})
         IN Joined([i \in 1..Len(ls) |-> SubSeq(ls[i], (IF Indent(ls[i]) < ind THEN Indent(ls[i]) ELSE ind) + 1, Len(ls[i]))])
=============================================================================
