-------------------------------- MODULE Markup --------------------------------
(* Well-formed markup.  A text of markup is a sequence of tokens, each a      *)
(* string: "(a" opens an element a, ")a" closes it, ".a" is an empty one,     *)
(* "t" is text, "!x" is something that isn't markup.  It is well formed if    *)
(* there is one element with everything in it, tags are closed in the right   *)
(* order, and there is nothing that isn't markup.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Tokens, Most
K(x) == SubSeq(x, 1, 1)
N(x) == SubSeq(x, 2, Len(x))
(* A machine that reads it token by token *)
Start == [stack |-> <<>>, roots |-> 0, why |-> ""]
Step(m, x) ==
    LET top == m.stack = <<>>
        k == K(x)
        root == IF top /\ k \in {"(", "."} THEN m.roots + 1 ELSE m.roots
        why == CASE m.why # "" -> m.why
                 [] k = "!" -> N(x)
                 [] k = "t" /\ top -> "text outside of the document"
                 [] root > 1 -> "two documents"
                 [] k = ")" /\ top -> "</" \o N(x) \o "> closes nothing"
                 [] k = ")" /\ ~top /\ Last(m.stack) # N(x) -> "</" \o N(x) \o "> closes <" \o Last(m.stack) \o ">"
                 [] OTHER -> ""
    IN [stack |-> CASE k = "(" -> Append(m.stack, N(x)) [] k = ")" /\ ~top -> Front(m.stack) [] OTHER -> m.stack, roots |-> root, why |-> why]
AtEnd(m) == IF m.why # "" THEN m.why ELSE IF m.stack # <<>> THEN "<" \o Last(m.stack) \o "> isn't closed" ELSE IF m.roots # 1 THEN "no document" ELSE ""
Wrong(q) == AtEnd(FoldLeft(Step, Start, q))

(* The grammar, which says the same *)
RECURSIVE Content(_)
Content(q) == \/ q = <<>>
              \/ K(Head(q)) \in {"t", "."} /\ Content(Tail(q))
              \/ K(Head(q)) = "(" /\ \E j \in 2..Len(q) : q[j] = ")" \o N(Head(q)) /\ Content(SubSeq(q, 2, j - 1)) /\ Content(SubSeq(q, j + 1, Len(q)))
Document(q) == q # <<>> /\ \/ Len(q) = 1 /\ K(q[1]) = "."
                           \/ Len(q) > 1 /\ K(q[1]) = "(" /\ Last(q) = ")" \o N(q[1]) /\ Content(SubSeq(q, 2, Len(q) - 1))

VARIABLES q, m
Init == q = <<>> /\ m = Start
Next == Len(q) < Most /\ \E x \in Tokens : q' = Append(q, x) /\ m' = Step(m, x)
Spec == Init /\ [][Next]_<<q, m>>
Same == (AtEnd(m) = "") = Document(q)
\* once something is wrong it can't become right
Stays == [][m.why # "" => m'.why = m.why]_<<q, m>>
=============================================================================
