----------------------------- MODULE Collector -----------------------------
(* Output collectors: a stack of texts, of which the newest receives what is *)
(* written.  Collector 1 owns its bottom text; collector 2 writes to a text  *)
(* that somebody else holds ("ext"), who can also write to it directly.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxWrites, MaxDepth, Depth
Start == [c |-> <<<<"">>, <<"">>>>, reg |-> <<"", "">>, w |-> 0]

Letter(i) == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t">>[(i % 20) + 1]
\* what the n-th write writes: a letter; a number; a long run (one "L")
Text(o, n) == CASE o.k = "num" -> ToString(n % 10) [] o.k = "long" -> "L" [] o.k = "empty" -> "" [] OTHER -> Letter(n)
Top(s, c) == s.c[c][Len(s.c[c])]
Put(s, c, t) == [s EXCEPT !.c[c][Len(s.c[c])] = @ \o t]
Apply(s, o) ==
    CASE o.op = "write" -> [Put(s, o.c, Text(o, s.w)) EXCEPT !.w = @ + 1]
      [] o.op = "ext" -> [s EXCEPT !.c[2][1] = @ \o Text(o, s.w), !.w = @ + 1]
      [] o.op = "push" -> [s EXCEPT !.c[o.c] = Append(@, "")]
      [] o.op = "pop" -> [s EXCEPT !.c[o.c] = SubSeq(@, 1, Len(@) - 1)]
      [] o.op = "clear" -> [s EXCEPT !.c[o.c][Len(s.c[o.c])] = ""]
      [] o.op = "swap" -> [s EXCEPT !.c[o.c][Len(s.c[o.c])] = s.reg[o.i], !.reg[o.i] = Top(s, o.c)]
      \* a copy of the text, appended to the current one
      [] o.op = "append" -> Put(s, o.c, s.reg[o.i])
      [] o.op = "read" -> s
Enabled(s, o) ==
    CASE o.op \in {"write", "ext"} -> s.w < MaxWrites
      [] o.op = "push" -> Len(s.c[o.c]) < MaxDepth
      [] o.op = "pop" -> Len(s.c[o.c]) > 1
      [] OTHER -> TRUE
\* what an observer may see after a call ("read" and "swap" are the only
\* ones that look, so that looking does not hide what was left in a buffer)
Obs(s, o) == CASE o.op = "read" -> Top(s, o.c) [] o.op = "swap" -> s.reg[o.i] [] OTHER -> ""

Kinds == {"stream", "string", "num", "char", "get", "long", "empty", "app"}
Ops == [op : {"write"}, c : {1, 2}, k : Kinds] \cup [op : {"ext"}, k : {"stream", "app"}]
       \cup [op : {"push", "pop", "clear", "read"}, c : {1, 2}] \cup [op : {"swap", "append"}, c : {1, 2}, i : {1, 2}]
VARIABLES st, h
vars == <<st, h>>
Init == st = Start /\ h = <<>>
Do(o) == Enabled(st, o) /\ st' = Apply(st, o) /\ h' = Append(h, o)
Next == Len(h) < Depth /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
\* fewer kinds of writing: they do not differ to the specification
SmallOps == {o \in Ops : ("k" \in DOMAIN o => o.k \in {"string", "stream", "long"})}
SNext == Len(h) < Depth /\ \E o \in SmallOps : Do(o)
SSpec == Init /\ [][SNext]_vars
View == st

\* ---- properties of the design
Last == h'[Len(h')]
Below(s, c) == SubSeq(s.c[c], 1, Len(s.c[c]) - 1)
\* nothing but the newest text of one collector ever changes
OnlyTop == [][\A c \in {1, 2} :
    LET o == Last
        d == Len(st'.c[c]) - Len(st.c[c])
    IN CASE o.op = "push" /\ o.c = c -> st'.c[c] = Append(st.c[c], "")
         [] o.op = "pop" /\ o.c = c -> st'.c[c] = Below(st, c)
         [] o.op = "ext" -> d = 0 /\ SubSeq(st'.c[c], 2, Len(st'.c[c])) = SubSeq(st.c[c], 2, Len(st.c[c]))
         [] OTHER -> d = 0 /\ Below(st', c) = Below(st, c) /\ ("c" \in DOMAIN o /\ o.c # c => st'.c[c] = st.c[c])]_vars
\* text is in the order of writing: letters by growing numbers are checked by
\* the structure of Put; a push and pop without more is no change at all
Balanced == \A c \in {1, 2} : Len(st.c[c]) >= 1
=============================================================================
