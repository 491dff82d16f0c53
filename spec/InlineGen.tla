------------------------------ MODULE InlineGen ------------------------------
(* Texts for every place of a document: every short sequence of pieces, and   *)
(* random ones.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
I == INSTANCE Inline WITH Pieces <- {}, MaxPieces <- 0, Versions <- {}, src <- "", at <- 0, out <- <<>>, ver <- 0, flags <- {}
CONSTANTS Most, Count
VARIABLE n
P == <<"a", " ", "<", "&", "\"", "'", "\\", "*", "/", "_", "=", "'''", "`", "[", "]", "[*", "['", "[/", "mm", "\\u0041", "\\u0026", "\\u00e9", "\\ud800", "\\n", "\\ ", "Q", ".", "\nb", ">", "-", "%", ";",
       "\\U00000026", "[br]", "\\u003c">>
Join(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)
Case(place, t, v) == LET r == I!Becomes(place, t, v)
                     IN IF r.un THEN TRUE ELSE PrintT(<<"@GEN", ToJson([place |-> place, t |-> t, v |-> v, bad |-> r.bad])>>)
Sometimes(k, m) == RandomElement(1..(m + 0 * k)) = 1
\* the paragraph has every sequence; the other places have some of them, as there are many
All == \A m \in 1..Most : \A q \in [1..m -> 1..Len(P)] : LET t == Join([i \in 1..m |-> P[q[i]]])
        IN /\ Case("para", t, IF m < 3 \/ Sometimes(q[1], 2) THEN 107 ELSE 105)
           /\ m < 3 => Case("para", t, 105)
           /\ \A k \in 2..Len(I!Places) : m = 1 \/ Sometimes(k, IF m = 2 THEN 3 ELSE 40) => \A v \in {103, 105, 106, 107} : m < 2 \/ Sometimes(v, 4) => Case(I!Places[k], t, v)
Frequent == <<"a", "b", " ", " ", "word", "mm", "Q", ".", "[*b]", "*b*", "\\*", "`c`", "<x>", "&amp;", "'''r<'''", "[/ c]", "[^x]", "_u", "]", "[">>
Piece(k) == IF Sometimes(k, 2) THEN Frequent[RandomElement(1..(Len(Frequent) + 0 * k))] ELSE P[RandomElement(1..(Len(P) + 0 * k))]
Random(k) ==
    LET t == Join([i \in 1..RandomElement(3..(14 + 0 * k)) |-> Piece(k + i)])
        place == I!Places[RandomElement(1..(Len(I!Places) + 0 * k))]
        v == RandomElement({103, 105, 106, 107 + 0 * k})
    IN \A c \in {<<place, t, v>>} : Case(c[1], c[2], c[3]) /\ (c[3] = 103 \/ Case("para", c[2], c[3]))
ASpec == n = 0 /\ All /\ [][n' = n /\ FALSE]_n
Init == n = 0
Next == n < Count /\ Random(n) /\ n' = n + 1
Spec == Init /\ [][Next]_n
=============================================================================
