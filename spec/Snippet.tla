------------------------------- MODULE Snippet -------------------------------
(* Code snippets of C++ and Python sources.  The machine reads a source from *)
(* mark to mark.  What it collects is a sequence of pieces: code, the start  *)
(* and end of code, and text from comments; an open snippet remembers how    *)
(* much was collected when it started.                                       *)
EXTENDS Text
CONSTANTS Pieces, MaxPieces     \* of the texts that the model check goes through

No == [k |-> "", e |-> 0, a |-> 0, b |-> 0]
\* a mark of kind k up to e, with its text from a to b
M(k, e, a, b) == [k |-> k, e |-> e, a |-> a, b |-> b]
First(ms) == LET w == {i \in 1..Len(ms) : ms[i].k # ""} IN IF w = {} THEN No ELSE ms[Min(w)]
OwnLine(t, p) == LET q == Skip(t, p, Blank) IN IF At(t, q, "\n") THEN Skip(t, q + 1, Blank) ELSE q
\* "//[ name" or "#[ name", with the line break before it and the rest of its line
StartLine(t, p, o) ==
    LET q == OwnLine(t, p)
        a == Skip(t, q + Len(o), Blank)
        b == Word(t, a)
    IN IF At(t, q, o) /\ b > a THEN M("start", LineEnd(t, b), a, b) ELSE No
EndLine(t, p, o) == LET q == OwnLine(t, p) IN IF At(t, q, o) THEN M("end", LineEnd(t, q), q, q) ELSE No
\* "/*[ name */", which takes the line break before it if it is alone in its line
StartIn(t, p) ==
    LET a == Skip(t, p + 3, Space)
        b == Word(t, a)
        c == Skip(t, b, Space)
    IN IF At(t, p, "/*[") /\ b > a /\ At(t, c, "*/") THEN M("start", c + 2, a, b) ELSE No
EndIn(t, p) == IF At(t, p, "/*]*/") THEN M("end", p + 5, p, p) ELSE No
Alone(t, p, m) ==
    LET q == Skip(t, p, Blank)
        x == m[Skip(t, q + 1, Blank)]
        e == Skip(t, x.e, Blank)
    IN IF At(t, q, "\n") /\ x.k # "" /\ At(t, e, "\n") THEN [x EXCEPT !.e = e] ELSE No
\* from an opening to the first closing after it
Between(t, p, k, o, c) ==
    LET f == Find(t, p + Len(o), c) IN IF At(t, p, o) /\ f # 0 THEN M(k, f + Len(c), p + Len(o), f) ELSE No
ToLineEnd(t, p, k, o) ==
    LET e == LineEnd(t, p) IN IF At(t, p, o) THEN M(k, IF e > Len(t) THEN e ELSE e + 1, p + Len(o), e) ELSE No
\* whole lines from an opening to a closing
IgnoreLines(t, p, o, c) ==
    LET x == Between(t, Skip(t, p, Blank), "ignore", o, c)
        e == Skip(t, x.e, Blank)
    IN IF x.k = "" THEN No ELSE IF At(t, e, "\n") THEN [x EXCEPT !.e = e + 1] ELSE IF Atend(t, e) THEN [x EXCEPT !.e = e] ELSE No
\* for Python the closing has to be at the end of its line; other closings don't count
RECURSIVE FindAtEnd(_, _, _)
FindAtEnd(t, p, c) ==
    LET f == Find(t, p, c)
        e == Skip(t, f + Len(c), Blank)
    IN IF f = 0 THEN 0 ELSE IF At(t, e, "\n") \/ Atend(t, e) THEN f ELSE FindAtEnd(t, f + 1, c)
IgnoreToEnd(t, p, o, c) ==
    LET q == Skip(t, p, Blank)
        f == FindAtEnd(t, q + Len(o), c)
        e == Skip(t, f + Len(c), Blank)
    IN IF At(t, q, o) /\ f # 0 THEN M("ignore", IF Atend(t, e) THEN e ELSE e + 1, q, q) ELSE No
\* not "//==..."
PassLine(t, p, o) == LET x == ToLineEnd(t, p, "pass", o) IN IF x.k = "" \/ At(t, p + Len(o), "=") THEN No ELSE [x EXCEPT !.b = x.e]
PassIn(t, p, o, c) == IF At(t, p + Len(o), "=") THEN No ELSE Between(t, p, "pass", o, c)
Comments(t, p, l, o, c) == LET q == Skip(t, p, Space) IN First(<<ToLineEnd(t, q, "comment", l), Between(t, q, "comment", o, c)>>)

MarkAt(t, p, py) ==
    IF py THEN First(<<StartLine(t, p, "#["), EndLine(t, p, "#]"), Comments(t, p, "#`", "\"\"\"`", "\"\"\""),
                       PassLine(t, p, "#="), PassIn(t, p, "\"\"\"=", "\"\"\""),
                       IgnoreToEnd(t, p, "#<-", "#->"), Between(t, p, "ignore", "\"\"\"<-\"\"\"", "\"\"\"->\"\"\""), Between(t, p, "ignore", "\"\"\"<-", "->\"\"\"")>>)
    ELSE First(<<StartLine(t, p, "//["), Alone(t, p, [q \in 1..(Len(t) + 2) |-> StartIn(t, q)]), StartIn(t, p),
                 EndLine(t, p, "//]"), Alone(t, p, [q \in 1..(Len(t) + 2) |-> EndIn(t, q)]), EndIn(t, p),
                 Comments(t, p, "//`", "/*`", "*/"),
                 IgnoreLines(t, p, "//<-", "//->"), Between(t, p, "ignore", "/*<-*/", "/*->*/"), Between(t, p, "ignore", "/*<-", "->*/"),
                 PassLine(t, p, "//="), PassIn(t, p, "/*=", "*/")>>)
MayStart(t, p, py) == In(t, p, Space \cup (IF py THEN {"#", "\""} ELSE {"/"}))

(* ---------------------------------------------------------------- machine *)
Start == [p |-> 1, last |-> 1, code |-> FALSE, stack |-> <<>>, all |-> <<>>, done |-> <<>>, bad |-> 0, marks |-> {}]
Piece(k, x, a, b) == [k |-> k, x |-> x, a |-> a, b |-> b]
Open == Piece("open", "", 0, 0)
Close == Piece("close", "", 0, 0)
\* the text since the last mark, up to before a, is code of the open snippets
Upto(s, t, a, e) ==
    LET z == [s EXCEPT !.last = e]
    IN IF s.stack = <<>> \/ s.last = a THEN z
       ELSE [z EXCEPT !.code = TRUE, !.all = @ \o (IF s.code THEN <<>> ELSE <<Open>>) \o <<Piece("code", Cut(t, s.last, a), s.last, a)>>]
CodeEnds(s) == IF s.stack # <<>> /\ s.code THEN [s EXCEPT !.code = FALSE, !.all = Append(@, Close)] ELSE s
Begin(s, id, at) == [s EXCEPT !.stack = <<[id |-> id, code |-> s.code, from |-> Len(s.all), at |-> at]>> \o @]
End(s, at) ==
    LET d == Head(s.stack)
        body == (IF d.code THEN <<Open>> ELSE <<>>) \o SubSeq(s.all, d.from + 1, Len(s.all)) \o (IF s.code THEN <<Close>> ELSE <<>>)
    IN [s EXCEPT !.stack = Tail(@), !.done = Append(@, [id |-> d.id, body |-> body, at |-> d.at, end |-> at]), !.code = @ /\ Len(s.stack) > 1]
Step(s, t, py) ==
    LET p == s.p
        m == IF MayStart(t, p, py) THEN MarkAt(t, p, py) ELSE No
        z == Upto(s, t, p, m.e)
        n == CASE m.k = "" -> s
               [] m.k = "start" -> Begin(z, Cut(t, m.a, m.b), m.e)
               [] m.k = "end" -> IF s.stack = <<>> THEN [z EXCEPT !.bad = @ + 1] ELSE End(z, p)
               [] m.k = "ignore" -> z
               [] m.k = "pass" -> IF s.stack = <<>> THEN s
                                  ELSE [z EXCEPT !.code = TRUE, !.all = @ \o (IF z.code THEN <<>> ELSE <<Open>>) \o <<Piece("code", Cut(t, m.a, m.b), m.a, m.b)>>]
               [] m.k = "comment" ->
                     LET c == CodeEnds(z)
                         text == <<Piece("text", Unindent(Cut(t, m.a, m.b)), m.a, m.b)>>
                     IN IF m.a = m.b THEN c
                        ELSE IF c.stack = <<>> THEN End([Begin(c, "!", p) EXCEPT !.all = @ \o text], m.e) ELSE [c EXCEPT !.all = @ \o text]
    IN IF m.k = "" THEN [s EXCEPT !.p = @ + 1] ELSE [n EXCEPT !.p = m.e, !.marks = @ \cup {[k |-> m.k, i |-> p, a |-> m.a, b |-> m.b, e |-> m.e]}]
RECURSIVE EndAll(_, _)
EndAll(s, at) == IF s.stack = <<>> THEN s ELSE EndAll(End([s EXCEPT !.bad = @ + 1], at), at)
Finish(s, t) == [EndAll(CodeEnds(Upto(s, t, Len(t) + 1, Len(t) + 1)), Len(t) + 1) EXCEPT !.p = Len(t) + 2]
RECURSIVE Run(_, _, _)
Run(s, t, py) == IF s.p > Len(t) + 1 THEN s ELSE IF s.p = Len(t) + 1 THEN Finish(s, t) ELSE Run(Step(s, t, py), t, py)

\* What is seen of a snippet: its code and its texts in order, without code
\* of which nothing can be seen.
Parts(body) ==
    LET z == FoldLeft(LAMBDA a, y :
                 CASE y.k = "open" -> [a EXCEPT !.in = TRUE, !.out = Append(@, [k |-> "code", x |-> ""])]
                   [] y.k = "close" -> [a EXCEPT !.in = FALSE]
                   [] y.k = "code" -> [a EXCEPT !.out[Len(a.out)].x = @ \o y.x]
                   [] y.k = "text" -> [a EXCEPT !.out = Append(@, [k |-> "text", x |-> "\n" \o y.x])],
               [in |-> FALSE, out |-> <<>>], body)
        seen == SelectSeq(z.out, LAMBDA y : y.k = "text" \/ Solid(y.x))
    IN FoldLeft(LAMBDA a, y : IF y.k = "text" /\ a # <<>> /\ Last(a).k = "text" THEN [a EXCEPT ![Len(a)].x = @ \o y.x] ELSE Append(a, y), <<>>, seen)
Snippets(t, py) ==
    LET s == Run(Start, t, py)
    IN [snips |-> [i \in 1..Len(s.done) |-> [id |-> s.done[i].id, parts |-> Parts(s.done[i].body)]], bad |-> s.bad]

(* ------------------------------------------------------------- properties *)
VARIABLES t, py, s
Texts == {FoldLeft(LAMBDA a, x : a \o x, "", q) : q \in UNION {[1..n -> Pieces[TRUE]] : n \in 0..MaxPieces}}
TextsOf(b) == {FoldLeft(LAMBDA a, x : a \o x, "", q) : q \in UNION {[1..n -> Pieces[b]] : n \in 0..MaxPieces}}
Init == /\ py \in BOOLEAN
        /\ t \in TextsOf(py)
        /\ s = Start
Next == s.p <= Len(t) + 1 /\ s' = (IF s.p = Len(t) + 1 THEN Finish(s, t) ELSE Step(s, t, py)) /\ UNCHANGED <<t, py>>
Spec == Init /\ [][Next]_<<t, py, s>>
Complete == s.p = Len(t) + 2
Contents(body) == SelectSeq(body, LAMBDA y : y.k \in {"code", "text"})
Covered(ranges) == UNION {x.a..(x.b - 1) : x \in ranges}
\* pieces are in order, from inside the snippet, and with the marks they make
\* up all of it; those in code are between the start and the end of code
InsideOut == Complete => \A i \in 1..Len(s.done) :
    LET d == s.done[i]
        c == Contents(d.body)
        got == {c[j] : j \in 1..Len(c)}
    IN /\ \A j \in 1..(Len(c) - 1) : c[j].b <= c[j + 1].a
       /\ d.id # "!" => \A j \in 1..Len(c) : d.at <= c[j].a /\ c[j].b <= d.end
       /\ d.id # "!" => (d.at..(d.end - 1)) \subseteq Covered(got) \cup UNION {m.i..(m.e - 1) : m \in s.marks}
       /\ \A j \in 1..Len(c) : c[j].k = "code" => c[j].x = Cut(t, c[j].a, c[j].b)
Alternate == Complete => \A i \in 1..Len(s.done) :
    FoldLeft(LAMBDA a, y : IF a = "wrong" THEN a
                           ELSE CASE y.k = "open" -> IF a = "text" THEN "code" ELSE "wrong"
                                  [] y.k = "close" -> IF a = "code" THEN "text" ELSE "wrong"
                                  [] OTHER -> IF a = y.k THEN a ELSE "wrong", "text", s.done[i].body) = "text"
\* ignored text is in no snippet
Ignored == Complete => \A m \in s.marks : m.k = "ignore" =>
    \A i \in 1..Len(s.done) : Covered({y \in ToSet(Contents(s.done[i].body)) : TRUE}) \cap (m.i..(m.e - 1)) = {}
\* every mark has a snippet or an error
Kinds(k) == Cardinality({m \in s.marks : m.k = k})
Counted == Complete => /\ Cardinality({i \in 1..Len(s.done) : s.done[i].id # "!"}) = Kinds("start")
                       /\ s.bad >= (IF Kinds("end") > Kinds("start") THEN Kinds("end") - Kinds("start") ELSE Kinds("start") - Kinds("end"))
=============================================================================
