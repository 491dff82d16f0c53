----------------------------- MODULE HighlightGen -----------------------------
(* Code: every short sequence of pieces, and random lines of code; as blocks *)
(* and inline.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
H == INSTANCE Highlight WITH Pieces <- {}, MaxPieces <- 0, t <- "", mode <- "", s <- 0
CONSTANTS Most, Count
VARIABLE n
Cpp == <<"if", "x", "1", "\"", "'", "//", "/*", "*/", "\n", " ", ";", "``", "mac", "#", "/*<", ">*/", "/*<<", ">>*/", "e", "\\", "0x", ".", "/", "~~", "@", "_", "auto", "``*b*``">>
Python == <<"if", "x", "1", "\"", "'", "#", "\n", " ", ";", "``", "mac", "#<", "#<<", "\"\"\"", "'''", "u", "e", "\\", "0x", ".", "~~", "?", "_", "def", "``b``">>
Plain == <<"if", "``", "mac", "~~", "\n", " ", "x", "``w``", "//", "1", "\"", "``mac``", "@", "_">>
PiecesOf(m) == IF m = "c++" THEN Cpp ELSE IF m = "python" THEN Python ELSE Plain
Join(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)
Calm(t) == H!Find(t, 1, "```") = 0
\* inline code has no line breaks or single `
Fits(t, form) == Calm(t) /\ H!Solid(t) /\ (form = "inline" => H!Find(t, 1, "\n") = 0 /\ H!Find(t, 1, "`") = 0)
Case(t, mode, v, form) ==
    Fits(t, form) => LET x == H!Lexed(IF form = "inline" THEN t ELSE H!BlockCode(t \o "\n"), mode, form = "block" /\ v >= 107)
                     IN x.un \/ PrintT(<<"@GEN", ToJson([t |-> t, mode |-> mode, v |-> v, form |-> form, bad |-> x.bad])>>)
All == \A mode \in {"c++", "python", "teletype"} : \A m \in 1..Most : \A q \in [1..m -> 1..Len(PiecesOf(mode))] :
          LET t == Join([i \in 1..m |-> PiecesOf(mode)[q[i]]]) IN Case(t, mode, 107, "block")
(* random *)
Pick(k, S) == RandomElement(S)
Name(k) == RandomElement({"x", "foo", "_a1", "iff", "mac", "auto", "auto_", "my_if", "e", "L", "u", "int2", "not_equal", "None2", "Z"})
Num(k) == RandomElement({"0", "1", "42", "0x1f", "0XAbUL", "017", "08", "1.5", "2.e3", "1e-7f", "7u", "0779", "3l", "1e", "0x", "9.9.9", "1e+", "5if"})
Str(k) == RandomElement({"\"a // b\"", "\"\\\"\"", "\"if\"", "'c'", "'\\''", "\"\"", "L\"w\"", "u'x'", "\"/*<no>*/\"", "'\"'", "\"open", "'''if \" x'''", "\"\"\"if\nelse\"\"\"", "\"``w``\"", "\"mac\""})
Op(k) == RandomElement({"+", "->", "<<", "::", "(", ");", "{", "}", "<a>", "&&", "/", "*=", "~", "~~", "?", "@", "$", "\\", "=="})
Sep(k) == RandomElement({"", "", " ", "  "})
Kw(k, mode) == RandomElement(IF mode = "python" THEN H!PythonWords ELSE H!CppWords)
Com(k, mode) ==
    IF mode = "python" THEN RandomElement({"# if x", "#", "# ``*b*`` y", "#!", "#<", "#< one", "#<< two", "#<<  three if"})
    ELSE RandomElement({"// if x", "//", "/* if\n x */", "/**/", "// ``*b*`` y", "/* ``w`` */", "/* open", "/*< one >*/", "/*<< two >>*/", "/*<  three if >*/", "/*<one>*/", "/*<< two >*/", "/*</>*/", "/*<>*/", "//<", "/*<< a\n b >>*/"})
Esc(k) == RandomElement({"``w``", "``*bold*``", "``mac``", "``auto``"})
Tok(k, mode) ==
    LET c == RandomElement(1..(20 + 0 * k))
    IN CASE c <= 4 -> Name(k) [] c <= 7 -> Kw(k, mode) [] c <= 9 -> Num(k) [] c <= 11 -> Str(k) [] c <= 15 -> Op(k) [] c = 16 -> Esc(k)
         [] c <= 18 -> Com(k, mode) [] OTHER -> RandomElement({";", "\n", " // x\n", " # y\n"})
LineOf(k, mode) == Join([i \in 1..RandomElement(0..(7 + 0 * k)) |-> Tok(k + i, mode) \o Sep(k + i)])
Random(k) ==
    LET mode == Pick(k, {"c++", "c++", "python", "teletype"})
        form == Pick(k, {"block", "block", "inline"})
        ls == [i \in 1..RandomElement(1..(4 + 0 * k)) |-> RandomElement({"", "", "  ", "    "}) \o (IF Pick(k + i, 1..5) = 1 /\ mode = "c++" THEN RandomElement({"#if ", "# define", "#\n", "#"}) ELSE "") \o LineOf(k + i, mode)]
        t == IF form = "inline" THEN LineOf(k, mode) ELSE FoldLeft(LAMBDA a, x : a \o x \o "\n", "", ls)
    IN Case(t, mode, Pick(k, {105, 106, 107, 107}), form)
Init == n = 0
ANext == n = 0 /\ n' = 1 /\ All
RNext == n < Count /\ n' = n + 1 /\ Random(n)
ASpec == Init /\ [][ANext]_n
RSpec == Init /\ [][RNext]_n
=============================================================================
