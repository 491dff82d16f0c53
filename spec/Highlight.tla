------------------------------ MODULE Highlight ------------------------------
(* How code is split into pieces for its colours: comments, keywords, names, *)
(* numbers, strings ..., and the macros, escapes and callouts in it, which   *)
(* are all that is replaced.                                                 *)
EXTENDS Text
CONSTANTS Pieces, MaxPieces     \* of the code that the model check goes through
CppWords == {"alignas", "alignof", "and_eq", "and", "asm", "auto", "bitand", "bitor", "bool", "break", "case", "catch", "char", "char16_t", "char32_t", "class",
    "compl", "const", "const_cast", "constexpr", "continue", "decltype", "default", "delete", "do", "double", "dynamic_cast", "else", "enum", "explicit",
    "export", "extern", "false", "float", "for", "friend", "goto", "if", "inline", "int", "long", "mutable", "namespace", "new", "noexcept", "not_eq", "not",
    "nullptr", "operator", "or_eq", "or", "private", "protected", "public", "register", "reinterpret_cast", "return", "short", "signed", "sizeof", "static",
    "static_assert", "static_cast", "struct", "switch", "template", "this", "thread_local", "throw", "true", "try", "typedef", "typeid", "typename", "union",
    "unsigned", "using", "virtual", "void", "volatile", "wchar_t", "while", "xor_eq", "xor"}
PythonWords == {"and", "del", "for", "is", "raise", "assert", "elif", "from", "lambda", "return", "break", "else", "global", "not", "try", "class", "except",
    "if", "or", "while", "continue", "exec", "import", "pass", "yield", "def", "finally", "in", "print", "as", "None"}
CppSpecial == {"~", "!", "%", "^", "&", "*", "(", ")", "+", "=", "{", "[", "}", "]", ":", ";", ",", "<", ".", ">", "?", "/", "|", "\\", "#", "-"}
PythonSpecial == CppSpecial \ {"?", "#"}
Oct == Digit \ {"8", "9"}
Hex == Digit \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
\* the macros of the documents, and what is seen of them
Macros == <<[n |-> "mac", k |-> "bold", x |-> "M"], [n |-> "~~", k |-> "", x |-> "tilde"], [n |-> "auto", k |-> "", x |-> "A"], [n |-> "~~~", k |-> "", x |-> "three"]>>

(* A token: its kind, its end and its items: [k, x], with k the colour, "" for *)
(* plain text, "open" and "close" of comments.  `bad' and `un' (nothing is    *)
(* said here) are passed on.                                                  *)
I(k, x) == [k |-> k, x |-> x]
T(k, e, its) == [k |-> k, e |-> e, its |-> its, bad |-> FALSE, un |-> FALSE]
None == T("none", 0, <<>>)
Is(x) == x.k # "none"
One(t, p, k, e) == IF e > p THEN T(k, e, <<I(IF k = "plain" THEN "" ELSE k, Cut(t, p, e))>>) ELSE None
Choose(xs) == LET w == {i \in 1..Len(xs) : Is(xs[i])} IN IF w = {} THEN None ELSE xs[Min(w)]

MacroAt(t, p) ==
    LET w == {i \in 1..Len(Macros) : At(t, p, Macros[i].n)}
        m == Macros[CHOOSE i \in w : \A j \in w : Len(Macros[j].n) <= Len(Macros[i].n)]
    IN IF w = {} \/ In(t, p + Len(m.n), WordStart) THEN None ELSE T("macro", p + Len(m.n), <<I(m.k, m.x)>>)
\* ``...``
Letters(x) == x # "" /\ \A k \in 1..Len(x) : SubSeq(x, k, k) \in Alpha
EscapeAt(t, p) ==
    LET q == Find(t, p + 2, "``")
        c == Cut(t, p + 2, q)
        b == Cut(c, 2, Len(c))
    IN IF ~At(t, p, "``") THEN None
       ELSE IF q = 0 \/ c = "" THEN [T("escape", Len(t) + 1, <<>>) EXCEPT !.bad = TRUE]
       ELSE IF Letters(c) /\ \A i \in 1..Len(Macros) : Find(c, 1, Macros[i].n) = 0 THEN T("escape", q + 2, <<I("", c)>>)
       ELSE IF Is(MacroAt(c, 1)) /\ MacroAt(c, 1).e = Len(c) + 1 THEN T("escape", q + 2, MacroAt(c, 1).its)
       ELSE IF Len(c) > 2 /\ At(c, 1, "*") /\ At(c, Len(c), "*") /\ Letters(b) /\ \A i \in 1..Len(Macros) : Find(b, 1, Macros[i].n) = 0
       THEN T("escape", q + 2, <<I("bold", b)>>)
       ELSE [T("escape", q + 2, <<>>) EXCEPT !.un = TRUE]
\* the inside of a comment, up to one of its ends
RECURSIVE Inside(_, _, _)
Inside(t, p, end) ==
    LET x == EscapeAt(t, p)
        n == Inside(t, IF Is(x) THEN x.e ELSE p + 1, end)
    IN IF Atend(t, p) \/ (At(t, p, end) /\ ~Is(x)) THEN T("comment", p, <<>>)
       ELSE [n EXCEPT !.its = (IF Is(x) THEN x.its ELSE <<I("", Cut(t, p, p + 1))>>) \o @, !.bad = @ \/ x.bad, !.un = @ \/ x.un]
CommentAt(t, p, open, end) ==
    LET n == Inside(t, p + Len(open), end)
        c == IF end # "\n" /\ At(t, n.e, end) THEN end ELSE ""
    IN IF ~At(t, p, open) THEN None ELSE [n EXCEPT !.e = @ + Len(c), !.its = <<I("open", "comment"), I("", open)>> \o @ \o <<I("", c), I("close", "")>>]
RECURSIVE Quoted(_, _, _)
Quoted(t, p, q) == IF Atend(t, p) THEN 0 ELSE IF At(t, p, q) THEN p + Len(q)
                   ELSE IF At(t, p, "\\") THEN (IF Atend(t, p + 1) THEN 0 ELSE Quoted(t, p + 2, q)) ELSE Quoted(t, p + 1, q)
StringAt(t, p, q, k) == IF At(t, p, q) THEN One(t, p, k, Quoted(t, p + Len(q), q)) ELSE None
RECURSIVE Specials(_, _, _)
Specials(t, p, py) == IF ~In(t, p, IF py THEN PythonSpecial ELSE CppSpecial) \/ (~py /\ (At(t, p, "//") \/ At(t, p, "/*"))) THEN p ELSE Specials(t, p + 1, py)
Number(t, p, suffix) ==
    LET x == Skip(t, p + 2, Hex)
        o == Skip(t, p + 1, Oct)
        d == Skip(t, p, Digit)
        f == IF At(t, d, ".") THEN Skip(t, d + 1, Digit) ELSE d
        sgn == IF In(t, f + 1, {"+", "-"}) THEN f + 2 ELSE f + 1
        e == IF In(t, f, {"e", "E"}) THEN (IF In(t, sgn, Digit) THEN Skip(t, sgn, Digit) ELSE 0) ELSE f
    IN IF In(t, p, {"0"}) /\ In(t, p + 1, {"x", "X"}) /\ x > p + 2 THEN [One(t, p, "number", Skip(t, x, suffix)) EXCEPT !.un = x > p + 10]
       ELSE IF In(t, p, {"0"}) /\ o > p + 1 THEN [One(t, p, "number", Skip(t, o, suffix)) EXCEPT !.un = o > p + 10]
       ELSE IF d > p /\ e > 0 THEN One(t, p, "number", Skip(t, e, suffix))
       ELSE None
WordAt(t, p, words) == LET e == Word(t, p) IN One(t, p, IF Cut(t, p, e) \in words THEN "keyword" ELSE "identifier", e)
\* a callout, with its text (plain words, nothing is said of others here)
Plain(x) == /\ \A k \in 1..Len(x) : SubSeq(x, k, k) \in Alpha \cup Digit \cup {" ", "\n"}
            /\ \A i \in 1..Len(Macros) : Find(x, 1, Macros[i].n) = 0
Co(e, x) == [T("callout", e, <<I("co", x)>>) EXCEPT !.un = ~Plain(x)]
CalloutAt(t, p, py) ==
    LET a == Skip(t, p + 4, Space)
        f == Find(t, a, ">>*/")
        b == Skip(t, p + 3, Space)
        g == Find(t, b, ">*/")
        pa == Skip(t, p + 3, Space)
        pb == Skip(t, p + 2, Space)
    IN IF py THEN (IF At(t, p, "#<<") THEN Co(LET e == LineEnd(t, pa) IN IF e > Len(t) THEN e ELSE e + 1, Cut(t, pa, LineEnd(t, pa)))
                   ELSE IF At(t, p, "#<") THEN Co(LineEnd(t, pb), Cut(t, pb, LineEnd(t, pb))) ELSE None)
       ELSE IF At(t, p, "/*<<") /\ f # 0 THEN Co(Skip(t, f + 4, Space), Cut(t, a, f))
       ELSE IF At(t, p, "/*<") /\ g # 0 THEN Co(g + 3, Cut(t, b, g))
       ELSE None
PreprocessorAt(t, p) == LET q == Skip(t, p + 1, Space) IN IF At(t, p, "#") THEN One(t, p, "preprocessor", IF Word(t, q) > q THEN Word(t, q) ELSE 0) ELSE None
TokenAt(t, p, mode, callouts, line) ==
    CASE mode = "c++" -> Choose(<<IF In(t, p, Space) THEN One(t, p, "plain", Skip(t, p, Space)) ELSE None,
                                  IF line THEN PreprocessorAt(t, p) ELSE None,
                                  MacroAt(t, p), EscapeAt(t, p), IF callouts THEN CalloutAt(t, p, FALSE) ELSE None,
                                  CommentAt(t, p, "//", "\n"), CommentAt(t, p, "/*", "*/"), WordAt(t, p, CppWords), One(t, p, "special", Specials(t, p, FALSE)),
                                  StringAt(t, p, "\"", "string"), StringAt(t, p, "'", "char"), Number(t, p, {"l", "d", "f", "u", "L", "D", "F", "U"}), One(t, p, "error", p + 1)>>)
      [] mode = "python" -> Choose(<<IF In(t, p, Space) THEN One(t, p, "plain", Skip(t, p, Space)) ELSE None,
                                  MacroAt(t, p), EscapeAt(t, p), IF callouts THEN CalloutAt(t, p, TRUE) ELSE None,
                                  CommentAt(t, p, "#", "\n"), WordAt(t, p, PythonWords), One(t, p, "special", Specials(t, p, TRUE)),
                                  StringAt(t, p, "'''", "string"), StringAt(t, p, "\"\"\"", "string"), StringAt(t, p, "'", "string"), StringAt(t, p, "\"", "string"),
                                  Number(t, p, {"l", "j", "L", "J"}), One(t, p, "error", p + 1)>>)
      [] OTHER -> Choose(<<MacroAt(t, p), EscapeAt(t, p), One(t, p, "plain", p + 1)>>)

(* ---------------------------------------------------------------- machine *)
Start == [p |-> 1, line |-> TRUE, toks |-> <<>>, its |-> <<>>, bad |-> FALSE, un |-> FALSE]
Step(s, t, mode, callouts) ==
    LET x == TokenAt(t, s.p, mode, callouts, s.line)
        raw == Cut(t, s.p, x.e)
    IN [p |-> x.e,
        \* a line starts after a line break, which no blank or token may hide
        line |-> (x.k = "plain" /\ (s.line \/ Find(raw, 1, "\n") # 0)),
        toks |-> Append(s.toks, [k |-> x.k, a |-> s.p, b |-> x.e]), its |-> s.its \o x.its, bad |-> s.bad \/ x.bad, un |-> s.un \/ x.un]
RECURSIVE Run(_, _, _, _)
Run(s, t, mode, callouts) == IF Atend(t, s.p) THEN s ELSE Run(Step(s, t, mode, callouts), t, mode, callouts)
\* plain text next to plain text is one
Merged(its) == FoldLeft(LAMBDA a, x : IF x.k = "" /\ x.x = "" THEN a
                                      ELSE IF x.k = "" /\ a # <<>> /\ Last(a).k = "" THEN [a EXCEPT ![Len(a)].x = @ \o x.x] ELSE Append(a, x), <<>>, its)
\* words with one space between them
Words(x) == LET z == FoldLeft(LAMBDA a, i : LET c == SubSeq(x, i, i) IN IF c \in Space THEN (IF a = "" \/ SubSeq(a, Len(a), Len(a)) = " " THEN a ELSE a \o " ") ELSE a \o c,
                              "", [i \in 1..Len(x) |-> i])
            IN IF z # "" /\ SubSeq(z, Len(z), Len(z)) = " " THEN SubSeq(z, 1, Len(z) - 1) ELSE z
\* the code of a block between ``` and ```
RECURSIVE FirstLine(_, _)
FirstLine(t, p) == LET q == Skip(t, p, Blank) IN IF At(t, q, "\n") THEN FirstLine(t, q + 1) ELSE p
BlockCode(t) ==
    LET a == FirstLine(t, 1)
        solid == {k \in a..Len(t) : SubSeq(t, k, k) \notin Space}
        e == IF solid = {} THEN a ELSE Max(solid) + 1
        q == Skip(t, e, Blank)
    IN Unindent(Cut(t, a, IF At(t, q, "\n") THEN q + 1 ELSE e))
Lexed(t, mode, callouts) == LET s == Run(Start, t, mode, callouts) IN [its |-> Merged(s.its), bad |-> s.bad, un |-> s.un]

(* ------------------------------------------------------------- properties *)
VARIABLES t, mode, s
Texts == {FoldLeft(LAMBDA a, x : a \o x, "", q) : q \in UNION {[1..n -> Pieces] : n \in 0..MaxPieces}}
Init == t \in Texts /\ mode \in {"c++", "python", "plain"} /\ s = Start
Next == ~Atend(t, s.p) /\ s' = Step(s, t, mode, TRUE) /\ UNCHANGED <<t, mode>>
Spec == Init /\ [][Next]_<<t, mode, s>>
Complete == Atend(t, s.p)
Between(i) == Cut(t, s.toks[i].a, s.toks[i].b)
\* the tokens are one after the other, and every step makes one
Tiled == /\ \A i \in 1..Len(s.toks) : s.toks[i].a < s.toks[i].b /\ s.toks[i].a = (IF i = 1 THEN 1 ELSE s.toks[i - 1].b)
         /\ s.p = (IF s.toks = <<>> THEN 1 ELSE Last(s.toks).b)
\* without macros, escapes and callouts the code is what was written
Same == Complete /\ (\A i \in 1..Len(s.toks) : s.toks[i].k \notin {"macro", "escape", "callout"}) /\ Find(t, 1, "``") = 0
        => FoldLeft(LAMBDA a, x : IF x.k \in {"open", "close"} THEN a ELSE a \o x.x, "", s.its) = t
\* keywords are whole words (or follow a number)
Whole == \A i \in 1..Len(s.toks) : s.toks[i].k = "keyword" =>
    /\ ~In(t, s.toks[i].b, WordChar)
    /\ s.toks[i].a = 1 \/ ~In(t, s.toks[i].a - 1, WordChar) \/ s.toks[i - 1].k \in {"number", "macro", "error"}
\* what follows the start of a comment that isn't in a string or comment is no code
NoCodeInComments == \A i \in 1..Len(s.toks) : mode = "c++" /\ s.toks[i].k \in {"special", "plain", "keyword", "identifier", "number", "error"} =>
    /\ Find(Between(i), 1, "//") = 0 /\ Find(Between(i), 1, "/*") = 0
\* every callout is one item, with its text
Callouts == Complete => Cardinality({i \in 1..Len(s.toks) : s.toks[i].k = "callout"}) = Cardinality({i \in 1..Len(s.its) : s.its[i].k = "co"})
Nested == FoldLeft(LAMBDA a, x : IF x.k = "open" THEN a + 1 ELSE IF x.k = "close" THEN a - 1 ELSE IF a > 0 /\ x.k \notin {"", "bold"} THEN 99 ELSE a, 0, s.its) = 0
=============================================================================
