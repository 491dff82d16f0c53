----------------------------- MODULE CalloutsGen -----------------------------
(* Documents with callouts: every short sequence of items over some          *)
(* templates and snippets, and random ones.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
C == INSTANCE Callouts WITH Docs <- {}, Defs <- {}, m <- 0, v <- 0, defs <- 0
CONSTANTS Most, Count
VARIABLE n
It(k, x, body) == C!It(k, x, body)
W(i) == It("w", "w" \o ToString(i), <<>>)
Mark(i, body) == It("mark", "m" \o ToString(i), body)
Code(body) == It("code", "", body)
Call(x) == It("call", x, <<>>)
Box(k, body) == It("box", k, body)
D(x, snip, body) == [x |-> x, snip |-> snip, body |-> body]
Kinds == {"list", "note", "table", "yes", "no", "foot", "head", "quote", "bold", "section", "varlist"}
Case(doc, v, defs) == PrintT(<<"@GEN", ToJson([doc |-> doc, v |-> v, defs |-> defs])>>)
(* all *)
DefsA == <<D("c1", FALSE, <<W(1), Code(<<W(2), Mark(3, <<>>)>>)>>),
           D("c2", TRUE, <<Code(<<W(4), Mark(5, <<>>)>>), W(6), Code(<<Mark(7, <<>>), W(8)>>)>>),
           D("c3", TRUE, <<Code(<<Mark(9, <<Call("c1")>>)>>), Call("c2"), Code(<<Mark(10, <<>>)>>)>>),
           D("c4", FALSE, <<Call("c2"), W(11), Code(<<Mark(12, <<Call("c2")>>), Call("c1"), Mark(13, <<>>)>>)>>)>>
Alphabet == {W(20), Code(<<W(21)>>), Code(<<Mark(22, <<>>), W(23), Mark(24, <<>>)>>), Code(<<Mark(25, <<Call("c1")>>), Call("c2"), Mark(26, <<>>)>>)}
    \cup {Call(c) : c \in {"c1", "c2", "c3", "c4"}} \cup {Box(k, <<W(30), Call(c), W(31)>>) : k \in Kinds, c \in {"c1", "c2", "c4"}}
All == \A v \in {106, 107} : \A l \in 1..Most : \A q \in [1..l -> Alphabet] : Case(q, v, DefsA)
(* random *)
Pick(k, S) == RandomElement(S)
Names(i) == {"c" \o ToString(j) : j \in 1..(i - 1)}
\* an inline body: words and calls of c1 ... c(i-1)
Inline(k, i) == [j \in 1..RandomElement(1..(3 + 0 * k)) |-> IF i > 1 /\ Pick(k + j, 1..2) = 1 THEN Call(RandomElement(Names(i + 0 * k))) ELSE W(RandomElement(100..(999 + 0 * j)))]
CodeOf(k, i) == Code([j \in 1..RandomElement(1..(5 + 0 * k)) |->
    LET c == Pick(k + j, 1..8)
    IN CASE c <= 3 -> Mark(RandomElement(100..(999 + 0 * j)), <<>>)
         [] c = 4 -> Mark(RandomElement(100..(999 + 0 * j)), IF i > 1 /\ Pick(k, 1..2) = 1 THEN <<Call(RandomElement(Names(i + 0 * j)))>> ELSE <<>>)
         [] c = 5 /\ i > 1 -> Call(RandomElement(Names(i + 0 * j)))
         [] OTHER -> W(RandomElement(100..(999 + 0 * j)))])
Items(k, i, most, boxes) == [j \in 1..RandomElement(1..(most + 0 * k)) |->
    LET c == Pick(k + j, 1..8)
    IN CASE c <= 3 -> CodeOf(k + j, i)
         [] c = 4 -> W(RandomElement(100..(999 + 0 * j)))
         [] c <= 6 /\ i > 1 -> Call(RandomElement(Names(i + 0 * j)))
         [] c = 7 /\ boxes -> Box(Pick(k + j, Kinds), Inline(k + j, i))
         [] OTHER -> CodeOf(k + j + 1, i)]
Random(k) ==
    LET nd == RandomElement(0..(4 + 0 * k))
        defs == [i \in 1..nd |-> LET s == Pick(k + i, BOOLEAN) IN D("c" \o ToString(i), s, Items(k + i, i, 3, ~s))]
        doc == Items(k, nd + 1, 4, TRUE)
        v == Pick(k, {106, 107, 107})
        r == C!Result(doc, v, defs)
    IN Len(r.out) > 150 \/ Case(doc, v, defs)
Init == n = 0
ANext == n = 0 /\ n' = 1 /\ All
RNext == n < Count /\ n' = n + 1 /\ Random(n)
ASpec == Init /\ [][ANext]_n
RSpec == Init /\ [][RNext]_n
=============================================================================
