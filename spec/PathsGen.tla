------------------------------ MODULE PathsGen ------------------------------
(* Pairs of paths, names, URLs and command line parameters.                  *)
EXTENDS Paths, Json, TLC
VARIABLES n, kind
CONSTANT Count
Few == {<<97>>, <<98>>, Up}
Odd == {<<97>>, <<98>>, <<97, 98>>, Up, Here, <<97, 46, 98>>, <<32>>, <<97, 32, 98>>, <<195, 169>>, <<120, 37, 50, 48>>, <<37>>,
        <<113, 63>>, <<104, 35, 49>>, <<112, 58, 113>>, <<99, 92, 100>>, <<126>>, <<43>>, <<38>>, <<61>>, <<46, 97>>, <<46, 46, 46>>, <<39, 34>>,
        <<40, 60, 41>>, <<42>>, <<45, 95, 33>>, <<227, 129, 130>>, <<37, 52>>, <<37, 71, 48>>, <<97, 37>>}
\* characters of URLs
Chars == {97, 90, 48, 45, 46, 47, 58, 63, 35, 37, 38, 61, 43, 32, 92, 126, 195, 128, 255, 9, 34, 60, 91, 64, 39, 44, 59, 36, 127, 70, 102, 71}
Slash(cs, lead, trail) == (IF lead THEN <<SL>> ELSE <<>>) \o Join(cs) \o (IF trail /\ cs # <<>> THEN <<SL>> ELSE <<>>)
Seqs(S, k) == UNION {[1..i -> S] : i \in 0..k}
Texts(S, k) == {Slash(cs, l, FALSE) : cs \in Seqs(S, k), l \in BOOLEAN}
Emit(c) == PrintT(<<"@GEN", ToJson(c)>>)
Case(op, a, b, f) == [op |-> op, a |-> a, b |-> b, f |-> f]
\* every pair of short paths; every short name; every short URL
All == {Case("diff", a, b, f) : a \in Texts(Few, Count), b \in Texts(Few, Count), f \in BOOLEAN}
       \cup {Case("url", Slash(cs, l, t), <<>>, f) : cs \in Seqs(Odd, 2), l \in BOOLEAN, t \in BOOLEAN, f \in BOOLEAN}
       \cup {Case("esc", t, <<>>, FALSE) : t \in Seqs(Chars, Count)}
\* longer ones, at random
RandPath(k) == LET m == RandomElement(0..6)
                   s == IF RandomElement(1..2) = 1 THEN Few \cup {Here} ELSE Odd
               IN Slash([i \in 1..m |-> RandomElement(s)], RandomElement(1..(2 + 0 * k)) = 1, RandomElement(1..3) = 1)
RandText(k) == [i \in 1..RandomElement(3..10) |-> RandomElement(IF RandomElement(1..(3 + 0 * k)) = 1 THEN {PCT, 50, 70} ELSE Chars)]
Params == {<<104, 116, 116, 112, 58, 47, 47>>, <<102, 105, 108, 101, 58>>, <<99, 58>>, <<99, 58, 47>>, <<97, 98, 58>>, <<97, 49, 58>>, <<46, 46, 47>>, <<47>>, <<97>>, <<98, 47>>, <<>>, <<63>>, <<99, 43, 43, 58>>}
RandParam(k) == RandomElement(Params) \o (IF RandomElement(1..(2 + 0 * k)) = 1 THEN RandPath(k) ELSE RandomElement(Params))
RandRel(k) == Join([i \in 1..RandomElement(1..(2 + 0 * k)) |-> RandomElement({<<97>>, <<98, 46, 99>>})])
\* Documents in folders, including one another, that give an xml:base and
\* include an XML file: xinclude in the innermost one.
Folders == {<<115>>, <<115, 47, 116>>, <<111>>, <<111, 47, 112, 32, 113>>, <<115, 47, 195, 169>>, <<97, 35, 98>>, <<46>>, <<115, 47, 46, 46, 47, 111>>}
Bases == {<<>>, <<>>, <<46>>, <<46, 46>>, <<116>>, <<46, 46, 47, 111>>, <<46, 46, 47, 115, 47, 116>>, <<46, 46, 47, 46, 46>>}
Targets == {<<102, 46, 120>>, <<46, 46, 47, 102, 46, 120>>, <<116, 47, 46, 46, 47, 103, 32, 104, 46, 120>>, <<46, 46, 47, 46, 46, 47, 46, 46, 47, 122>>,
            <<100, 47, 195, 169, 43>>, <<47, 97, 98, 115, 47, 102>>, <<46, 46, 47, 111, 47, 120, 37, 50, 48>>, <<46, 47, 115, 47, 116, 47, 102>>, <<46, 46, 47, 115>>, <<46, 46>>, <<112, 32, 113, 47, 35, 49>>,
            <<46, 46, 47, 111, 47, 112, 32, 113, 47, 102>>}
\* base and p are relative to the document; those bases that are no folder are not used
World(k) == [docs |-> [i \in 1..RandomElement(1..3) |-> [dir |-> RandomElement(Folders), base |-> IF RandomElement(1..2) = 1 THEN <<>> ELSE RandomElement(Bases)]],
             out |-> RandomElement(Folders), xb |-> IF RandomElement(1..(3 + 0 * k)) = 1 THEN RandomElement(Folders) ELSE <<>>,
             p |-> RandomElement(Targets), ver |-> RandomElement({105, 106, 107})]
WInit == Init /\ n = 0 /\ kind = "none"
WNext == n < Count /\ n' = n + 1 /\ kind' = "world" /\ UNCHANGED vars /\ Emit(World(n))
WSpec == WInit /\ [][WNext]_<<vars, n, kind>>
GInit == Init /\ n = 0 /\ kind = "none"
GNext == /\ n = 0 /\ n' = 1 /\ kind' = "all" /\ UNCHANGED vars
         /\ \A c \in All : Emit(c)
GSpec == GInit /\ [][GNext]_<<vars, n, kind>>
RNext == /\ n < Count /\ n' = n + 1 /\ UNCHANGED vars
         /\ kind' = RandomElement({"diff", "diff", "url", "esc", "param"})
         /\ CASE kind' = "diff" -> Emit(Case("diff", RandPath(n), RandPath(n + 1), RandomElement({TRUE, FALSE})))
              [] kind' = "url" -> Emit(Case("url", RandPath(n), <<>>, RandomElement({TRUE, FALSE})))
              [] kind' = "esc" -> Emit(Case("esc", RandText(n), <<>>, FALSE))
              [] kind' = "param" -> Emit(Case("param", RandParam(n), RandRel(n), FALSE))
RSpec == GInit /\ [][RNext]_<<vars, n, kind>>
=============================================================================
