------------------------------ MODULE SnippetGen ------------------------------
(* Sources: every short sequence of marks and text, outside of snippets,     *)
(* inside of one and inside of two; and random longer ones.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Most, Count
VARIABLE n
Emit(x) == PrintT(<<"@GEN", ToJson(x)>>)
Cpp == <<"//[a", "//]", "\n", "x", "  ", "//`", "//<-", "//->", "/*[b*/", "/*]*/", "/*<-", "->*/", "/*<-*/", "/*->*/", "/*`", "*/", "//=", "/*=", "[", "\n  ">>
Py == <<"#[a", "#]", "\n", "x", "  ", "#`", "#<-", "#->", "\"\"\"`", "\"\"\"", "#=", "\"\"\"<-", "->\"\"\"", "\"\"\"<-\"\"\"", "\"\"\"->\"\"\"", "\"\"\"=", "[", "\n  ">>
Join(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)
Case(t, py, v) == Emit([t |-> t, py |-> py, v |-> v])
All == \A py \in BOOLEAN : LET P == IF py THEN Py ELSE Cpp
                               o == IF py THEN "#" ELSE "//"
    IN \A m \in 0..Most : \A q \in [1..m -> 1..Len(P)] :
          LET b == Join([i \in 1..m |-> P[q[i]]])
          IN \A c \in {b, o \o "[s\n" \o b \o "\n" \o o \o "]\n", o \o "[s\n y\n" \o b \o "\n" \o o \o "[q\nz\n" \o o \o "]\n" \o o \o "]", o \o "[s\n" \o o \o "]\n" \o b} : Case(c, py, 107)
(* random *)
Pick(k, S) == RandomElement(S)
Word(k) == RandomElement({"int x;", "f(y)", "if (a)", "z", "\"a // b\"", "k = 1", "/ *", "# [", "while (c < 2) {}"})
Ind(k) == RandomElement({"", "", "  ", "    "})
Name(k) == RandomElement({"a", "b", "c_1", "Abc", "_"})
Rest(k) == RandomElement({"", "", " ", " more", "  // x"})
CLine(k) ==
    LET c == RandomElement(1..(24 + 0 * k))
    IN CASE c <= 6 -> Ind(k) \o Word(k) \o RandomElement({"", "", "  "}) \o "\n"
         [] c <= 9 -> Ind(k) \o "//[" \o RandomElement({"", " "}) \o Name(k) \o Rest(k) \o "\n"
         [] c <= 12 -> Ind(k) \o "//]" \o Rest(k) \o "\n"
         [] c = 13 -> Ind(k) \o "/*[" \o RandomElement({"", " "}) \o Name(k) \o RandomElement({"", " "}) \o "*/" \o RandomElement({"", " ", Word(k)}) \o "\n"
         [] c = 14 -> RandomElement({"", " ", Word(k)}) \o "/*]*/" \o RandomElement({"", " ", Word(k)}) \o "\n"
         [] c = 15 -> Word(k) \o " /*[" \o Name(k) \o "*/" \o Word(k) \o "/*]*/" \o Word(k) \o "\n"
         [] c <= 17 -> Ind(k) \o "//`" \o RandomElement({"", " "}) \o Word(k) \o "\n"
         [] c = 18 -> Ind(k) \o "/*`" \o RandomElement({"", " ", "\n"}) \o Ind(k + 1) \o Word(k) \o "\n" \o Ind(k + 2) \o Word(k + 1) \o RandomElement({"", "\n"}) \o "*/\n"
         [] c = 19 -> Ind(k) \o "//<-\n" \o Word(k) \o "\n" \o Ind(k) \o "//->" \o RandomElement({"", " ", "x"}) \o "\n"
         [] c = 20 -> Word(k) \o "/*<-" \o RandomElement({"", "*/"}) \o Word(k) \o RandomElement({"->*/", "/*->*/"}) \o Word(k) \o "\n"
         [] c = 21 -> Ind(k) \o "//=" \o RandomElement({"", "=", "  "}) \o Word(k) \o "\n"
         [] c = 22 -> Ind(k) \o "/*=" \o RandomElement({"", "=", "\n"}) \o Word(k) \o "*/" \o Word(k) \o "\n"
         [] c = 23 -> "\n"
         [] OTHER -> Join([i \in 1..RandomElement(1..(4 + 0 * k)) |-> Cpp[RandomElement(1..(Len(Cpp) + 0 * i))]]) \o "\n"
PLine(k) ==
    LET c == RandomElement(1..(22 + 0 * k))
    IN CASE c <= 6 -> Ind(k) \o Word(k) \o RandomElement({"", "", "  "}) \o "\n"
         [] c <= 9 -> Ind(k) \o "#[" \o RandomElement({"", " "}) \o Name(k) \o Rest(k) \o "\n"
         [] c <= 12 -> Ind(k) \o "#]" \o Rest(k) \o "\n"
         [] c <= 14 -> Ind(k) \o "#`" \o RandomElement({"", " "}) \o Word(k) \o "\n"
         [] c = 15 -> Ind(k) \o "\"\"\"`" \o RandomElement({"", " ", "\n"}) \o Ind(k + 1) \o Word(k) \o "\n" \o Ind(k + 2) \o Word(k + 1) \o "\"\"\"\n"
         [] c = 16 -> Ind(k) \o "#<-\n" \o Word(k) \o "\n" \o Ind(k) \o "#->" \o RandomElement({"", " ", "x"}) \o "\n"
         [] c = 17 -> Word(k) \o "\"\"\"<-" \o RandomElement({"", "\"\"\""}) \o Word(k) \o RandomElement({"->\"\"\"", "\"\"\"->\"\"\""}) \o Word(k) \o "\n"
         [] c = 18 -> Ind(k) \o "#=" \o RandomElement({"", "=", "  "}) \o Word(k) \o "\n"
         [] c = 19 -> Ind(k) \o "\"\"\"=" \o RandomElement({"", "=", "\n"}) \o Word(k) \o "\"\"\"" \o Word(k) \o "\n"
         [] c = 20 -> "\n"
         [] OTHER -> Join([i \in 1..RandomElement(1..(4 + 0 * k)) |-> Py[RandomElement(1..(Len(Py) + 0 * i))]]) \o "\n"
Random(k) ==
    LET py == RandomElement({TRUE, FALSE, k < 0})
        ls == [i \in 1..RandomElement(2..(14 + 0 * k)) |-> IF py THEN PLine(k + i) ELSE CLine(k + i)]
        t == Join(ls)
    IN Case(IF Pick(k, 1..4) = 1 /\ Len(t) > 1 THEN SubSeq(t, 1, Len(t) - 1) ELSE t, py, Pick(k, {105, 106, 107, 107}))
Init == n = 0
ANext == n = 0 /\ n' = 1 /\ All
RNext == n < Count /\ n' = n + 1 /\ Random(n)
ASpec == Init /\ [][ANext]_n
RSpec == Init /\ [][RNext]_n
=============================================================================
