------------------------------- MODULE Inline -------------------------------
(* How the text of a paragraph, a title, an attribute value ... is read,      *)
(* character by character: which characters stay as they are, and what of     *)
(* the others becomes.  Q stands for a character that isn't ASCII (U+00E9).   *)
(*                                                                            *)
(* What is read is [e, x, bad, un, soft]: where it ends, what is written, if   *)
(* it is an error, if nothing is said here, and if there was a bracket that   *)
(* could be closed by what follows.  In what is written < and & are entities  *)
(* (also > and " in attributes), unless they are copied from an escape or     *)
(* belong to the markup.                                                      *)
EXTENDS Text
CONSTANTS Pieces, MaxPieces, Versions
Punct == {"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@", "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~"}
HexDigit == Digit \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
C(t, p) == SubSeq(t, p, p)
Graph(c) == c \notin Space /\ c # "Q"
MacroName == "mm"
MacroText == "<emphasis role=\"bold\">M</emphasis>&amp;"

R(e, x) == [e |-> e, x |-> x, bad |-> FALSE, un |-> FALSE, soft |-> FALSE]
No == R(0, "")
Bad(e) == [R(e, "") EXCEPT !.bad = TRUE]
Un(e) == [R(e, "") EXCEPT !.un = TRUE]
Is(r) == r.e # 0
\* a, then b, which was read from the end of a
Then(a, b) == [e |-> b.e, x |-> a.x \o b.x, bad |-> a.bad \/ b.bad, un |-> a.un \/ b.un, soft |-> a.soft \/ b.soft]
Choose(rs) == LET w == {i \in 1..Len(rs) : Is(rs[i])} IN IF w = {} THEN No ELSE rs[Min(w)]

(* ------------------------------------------------------------ characters *)
Enc(c) == CASE c = "<" -> "&lt;" [] c = "&" -> "&amp;" [] OTHER -> c
EncAttr(c) == CASE c = "<" -> "&lt;" [] c = "&" -> "&amp;" [] c = ">" -> "&gt;" [] c = "\"" -> "&quot;" [] OTHER -> c
Map(s, Op(_)) == FoldLeft(LAMBDA a, c : a \o Op(c), "", Chars(s))
\* the characters that the escapes of the generator name
Unicode(h) == CASE h \in {"0041", "00000041"} -> "A" [] h \in {"0026", "00000026"} -> "&" [] h = "003c" -> "<" [] h = "0022" -> "\"" [] h \in {"00e9", "00E9", "000000e9"} -> "Q" [] h = "0000" -> "" [] OTHER -> "?"
Invalid == {"0001", "d800", "fffe", "00110000"}
AllHex(t, p, n) == p + n - 1 <= Len(t) /\ \A i \in 0..(n - 1) : C(t, p + i) \in HexDigit
\* \x, \uXXXX ...; what it stands for is a character
EscapeChar(t, p) ==
    IF C(t, p) # "\\" THEN No
    ELSE IF In(t, p + 1, Punct) THEN R(p + 2, C(t, p + 1))
    ELSE IF At(t, p + 1, "u") /\ AllHex(t, p + 2, 4) THEN LET h == SubSeq(t, p + 2, p + 5) IN IF h \in Invalid THEN Bad(p + 6) ELSE R(p + 6, Unicode(h))
    ELSE IF At(t, p + 1, "U") /\ AllHex(t, p + 2, 8) THEN LET h == SubSeq(t, p + 2, p + 9) IN IF h \in Invalid THEN Bad(p + 10) ELSE R(p + 10, Unicode(h))
    ELSE No

(* --------------------------------------------------------------- comments *)
\* [/ ... ] with nested brackets: where it ends, 0 if there is none
RECURSIVE Nested(_, _)
Nested(t, p) == IF Atend(t, p) THEN 0
                ELSE IF C(t, p) = "]" THEN p + 1
                ELSE IF C(t, p) = "[" THEN LET q == Nested(t, p + 1) IN IF q = 0 THEN Nested(t, p + 1) ELSE Nested(t, q)
                ELSE Nested(t, p + 1)
CommentEnd(t, p) == IF At(t, p, "[/") THEN Nested(t, p + 2) ELSE 0
RECURSIVE SkipOver(_, _, _)
SkipOver(t, p, S) == IF In(t, p, S) THEN SkipOver(t, p + 1, S) ELSE IF CommentEnd(t, p) # 0 THEN SkipOver(t, CommentEnd(t, p), S) ELSE p
SpaceEnd(t, p) == SkipOver(t, p, Space)
BlankEnd(t, p) == SkipOver(t, p, Blank)

(* ----------------------------------------------------------------- pieces *)
\* the end of a paragraph; a text ends with it
ParaEnd(t, p) == Atend(t, p) \/ (At(t, p, "\n") /\ At(t, Skip(t, p + 1, Blank), "\n"))
PhraseEnd(t, p) == At(t, p, "]") \/ (At(t, p, "\n") /\ At(t, Skip(t, p + 1, Blank), "\n"))

MacroAt(t, p) == IF At(t, p, MacroName) /\ ~In(t, p + Len(MacroName), (Alpha \ {"Q"}) \cup {"_"}) THEN R(p + Len(MacroName), MacroText) ELSE No

\* '''...'''
RawAt(t, p) ==
    LET b == BlankEnd(t, p + 3)
        s == IF At(t, b, "\n") THEN b + 1 ELSE p + 3
        q == Find(t, s, "'''")
    IN IF ~At(t, p, "'''") THEN No ELSE IF q = 0 THEN Bad(Len(t) + 1) ELSE R(q + 3, Cut(t, s, q))
EscapeAt(t, p) ==
    IF At(t, p, "\\n") THEN R(p + 2, "<sbr/>\n")
    ELSE IF At(t, p, "\\ ") THEN R(p + 2, "")
    ELSE LET c == EscapeChar(t, p) IN IF Is(c) THEN [c EXCEPT !.x = Map(@, Enc)] ELSE RawAt(t, p)

\* code without colours: macros are replaced, nothing else is special
RECURSIVE CodeText(_, _)
CodeText(t, p) == IF Atend(t, p) THEN "" ELSE LET m == MacroAt(t, p) IN IF Is(m) THEN m.x \o CodeText(t, m.e) ELSE Enc(C(t, p)) \o CodeText(t, p + 1)
\* `...`
CodeAt(t, p) ==
    LET q == Find(t, p + 1, "`")
    IN IF ~At(t, p, "`") \/ q = 0 THEN No
       ELSE IF \E k \in (p + 1)..(q - 1) : At(t, k, "\n") /\ At(t, Skip(t, k + 1, Blank), "\n") THEN No
       ELSE R(q + 1, "<code>" \o CodeText(Cut(t, p + 1, q), 1) \o "</code>")
\* ``...``
CodeBlockAt(t, p) == IF At(t, p, "``") THEN Un(Len(t) + 1) ELSE No

\* *...*, /.../, _..._, =...=
Open(m) == CASE m = "*" -> "<emphasis role=\"bold\">" [] m = "/" -> "<emphasis>" [] m = "_" -> "<emphasis role=\"underline\">" [] m = "=" -> "<literal>"
Close(m) == IF m = "=" THEN "</literal>" ELSE "</emphasis>"
SimpleEnd(t, p, m) ==
    \/ p > 1 /\ Graph(C(t, p - 1)) /\ At(t, p, m) /\ ~At(t, p + 1, m) /\ (Atend(t, p + 1) \/ In(t, p + 1, Space \cup Punct))
    \/ At(t, p, "[") \/ At(t, p, "'''") \/ At(t, p, "`") \/ PhraseEnd(t, p)
RECURSIVE SimpleStop(_, _, _)
SimpleStop(t, p, m) == IF Atend(t, p) \/ (C(t, p - 1) # m /\ SimpleEnd(t, p, m)) THEN p ELSE SimpleStop(t, p + 1, m)
SimpleAt(t, p) ==
    LET m == C(t, p)
        mac == At(t, p + 1, MacroName) /\ SimpleEnd(t, p + 1 + Len(MacroName), m)
        q == IF mac THEN p + 1 + Len(MacroName) ELSE SimpleStop(t, p + 1, m)
    IN IF \/ m \notin {"*", "/", "_", "="}
          \/ Atend(t, p + 1) \/ ~Graph(C(t, p + 1))
          \/ p > 1 /\ (C(t, p - 1) = m \/ C(t, p - 1) \notin Space \cup Punct)
          \/ C(t, p + 1) = m
          \/ q = p + 1
          \/ ~At(t, q, m)
       THEN No
       ELSE R(q + 1, Open(m) \o (IF mac THEN MacroText ELSE Map(Cut(t, p + 1, q), Enc)) \o Close(m))

(* ---------------------------------------------------------------- phrases *)
Marks == {"*", "'", "_", "^", "-", "\"", "~"}
ElementOpen(c) == CASE c = "*" -> "<emphasis role=\"bold\">" [] c = "'" -> "<emphasis>" [] c = "_" -> "<emphasis role=\"underline\">" [] c = "^" -> "<literal>"
                    [] c = "-" -> "<emphasis role=\"strikethrough\">" [] c = "\"" -> "<quote>" [] c = "~" -> "<replaceable>"
ElementClose(c) == CASE c \in {"*", "'", "_", "-"} -> "</emphasis>" [] c = "^" -> "</literal>" [] c = "\"" -> "</quote>" [] c = "~" -> "</replaceable>"

RECURSIVE CommonAt(_, _, _), Phrase(_, _, _)
ElementAt(t, p, v) ==
    LET c == C(t, p + 1)
        b == Phrase(t, BlankEnd(t, p + 2), v)
        e == SpaceEnd(t, b.e)
    IN IF ~At(t, p, "[") \/ ~In(t, p + 1, Marks) THEN No
       \* since 1.7 this is an error
       ELSE IF ~At(t, e, "]") THEN (IF v >= 107 THEN Bad(e) ELSE [No EXCEPT !.bad = b.bad, !.un = b.un, !.soft = TRUE])
       ELSE [b EXCEPT !.e = e + 1, !.x = ElementOpen(c) \o @ \o ElementClose(c)]
BreakAt(t, p) == LET b == SpaceEnd(t, p + 1)
                     e == SpaceEnd(t, b + 2)
                 IN IF At(t, p, "[") /\ At(t, b, "br") /\ At(t, e, "]") THEN R(e + 1, "<sbr/>\n") ELSE No
CommentAt(t, p) == IF CommentEnd(t, p) # 0 THEN R(CommentEnd(t, p), "") ELSE No
\* from 1.6 on brackets have to match
BracketsAt(t, p, v) ==
    LET b == Phrase(t, p + 1, v)
    IN IF v < 106 THEN No
       ELSE IF At(t, p, "]") THEN Bad(p + 1)
       ELSE IF ~At(t, p, "[") THEN No
       ELSE IF At(t, b.e, "]") THEN [b EXCEPT !.e = @ + 1, !.x = "[" \o @ \o "]"] ELSE Bad(b.e)
CommonAt(t, p, v) ==
    LET el == ElementAt(t, p, v)
        r == Choose(<<MacroAt(t, p), el, BreakAt(t, p), CodeBlockAt(t, p), CodeAt(t, p), SimpleAt(t, p), EscapeAt(t, p), CommentAt(t, p), BracketsAt(t, p, v),
                      R(p + 1, Enc(C(t, p)))>>)
    \* what was wrong in an element that wasn't one has been reported
    IN [r EXCEPT !.bad = @ \/ el.bad, !.un = @ \/ el.un, !.soft = @ \/ el.soft]
Phrase(t, p, v) == IF Atend(t, p) \/ PhraseEnd(t, p) THEN R(p, "") ELSE LET r == CommonAt(t, p, v) IN Then(r, Phrase(t, r.e, v))
\* all the text of a paragraph
RECURSIVE Para(_, _, _)
Para(t, p, v) == IF ParaEnd(t, p) THEN R(p, "") ELSE LET r == CommonAt(t, p, v) IN Then(r, Para(t, r.e, v))

(* ------------------------------------------------------- attribute values *)
\* \x ... in an attribute value
RawEscape(t, p) ==
    LET c == EscapeChar(t, p)
    IN IF At(t, p, "\\n") THEN Bad(p + 2)
       ELSE IF At(t, p, "\\ ") THEN R(p + 2, "")
       ELSE IF Is(c) THEN c
       ELSE IF At(t, p, "\\") /\ ~Atend(t, p + 1) THEN Bad(p + 2)
       ELSE IF At(t, p, "'''") THEN Bad(p + 3)
       ELSE No
\* the value of a link, a role ..., up to a space, comment or "]"; what is read are the characters themselves
RECURSIVE Value(_, _, _)
Value(t, p, v) ==
    IF Atend(t, p) \/ C(t, p) \in Space \cup {"]"} \/ CommentEnd(t, p) # 0 THEN R(p, "")
    ELSE LET r == IF v < 106 THEN R(p + 1, C(t, p))
                  ELSE IF At(t, p, "[") THEN Bad(p + 1)
                  ELSE LET e == RawEscape(t, p) IN IF Is(e) THEN e ELSE R(p + 1, C(t, p))
         IN Then(r, Value(t, r.e, v))
\* in URLs most characters stay as they are
UrlSafe == Alpha \cup Digit \cup {"-", "_", ".", "!", "~", "*", "'", "(", ")", "?", "\\", "/", ":", "&", "=", "#", "+"}
Hex2(c) == CASE c = "<" -> "%3c" [] c = ">" -> "%3e" [] c = "\"" -> "%22" [] c = "`" -> "%60" [] c = "[" -> "%5b" [] c = "]" -> "%5d" [] c = "Q" -> "%c3%a9" [] c = " " -> "%20" [] c = "%" -> "%25" [] c = ";" -> "%3b" [] c = "@" -> "%40" [] c = "," -> "%2c" [] c = "^" -> "%5e" [] c = "{" -> "%7b" [] c = "$" -> "%24"
UrlChar(u, k) == LET c == C(u, k) IN IF c \in UrlSafe \ {"Q"} THEN c
                 ELSE IF c = "%" /\ k + 2 <= Len(u) /\ C(u, k + 1) \in HexDigit /\ C(u, k + 2) \in HexDigit THEN c ELSE Hex2(c)
Url(u) == FoldLeft(LAMBDA a, k : a \o UrlChar(u, k), "", [k \in 1..Len(u) |-> k])
\* what is written for "[kind value words]"; the value isn't empty
Attr(kind, t, v) ==
    LET r == Value(t, 1, v)
        y == IF kind = "url" THEN Url(r.x) ELSE r.x
    IN [r EXCEPT !.bad = @ \/ r.x = "", !.un = @ \/ ~Atend(t, r.e) \/ (kind = "link" /\ v >= 107), !.x = Map(y, EncAttr)]

\* the text for an image, "[$x.png [alt text]]"
RECURSIVE Alt(_, _, _)
Alt(t, p, v) == IF Atend(t, p) \/ C(t, p) = "[" \/ PhraseEnd(t, p) THEN R(p, "")
                ELSE LET e == IF v < 106 THEN (IF C(t, p) = "\\" THEN (IF Atend(t, p + 1) \/ In(t, p + 1, {"[", "]"}) THEN Un(p + 1) ELSE R(p + 2, C(t, p + 1))) ELSE No) ELSE RawEscape(t, p)
                         r == IF Is(e) THEN e ELSE R(p + 1, C(t, p))
                     IN Then(r, Alt(t, r.e, v))
\* the file of an image, without spaces
RECURSIVE File(_, _)
File(t, p) == IF Atend(t, p) \/ C(t, p) \in Space \cup {"[", "]"} THEN R(p, "")
              ELSE LET e == RawEscape(t, p)
                       r == IF Is(e) THEN [e EXCEPT !.bad = @ \/ Find(e.x, 1, "\\") # 0] ELSE R(p + 1, C(t, p))
                   IN Then(r, File(t, r.e))

(* ----------------------------------------------------------------- places *)
\* a text in brackets: it mustn't close them, or keep them open
Closed(t, v) == LET r == Phrase(t \o "]", 1, v) IN IF r.bad \/ r.un \/ r.soft \/ r.e # Len(t) + 1 THEN Un(1) ELSE r
NoneOf(t, S) == \A k \in 1..Len(t) : C(t, k) \notin S
Value2(kind, t, v) == LET r == Value(t \o " w]", 1, v) IN IF r.bad THEN r ELSE IF r.e # Len(t) + 1 THEN Un(1) ELSE [Attr(kind, t, v) EXCEPT !.e = 1]
\* what a text becomes in a place of a document
\* a comment that isn't closed goes on behind the text
LeftOpen(t) == \E k \in 1..Len(t) : At(t, k, "[/") /\ CommentEnd(t, k) = 0
Becomes(place, t, v) ==
    CASE LeftOpen(t) -> Un(1)
      [] place = "para" -> Para("x " \o t, 1, v)
      [] place \in {"heading", "section"} -> IF ~Solid(t) \/ ~Solid(Closed(t, v).x) THEN Un(1) ELSE Closed(t, v)
      \* these can have lists, rules ...
      [] place \in {"note", "footnote", "cell", "item"} -> LET b == Skip(t, 1, Space) IN IF ~Solid(t) \/ In(t, b, {"*", "#"}) \/ At(t, b, "----") THEN Un(1) ELSE Closed(t, v)
      [] place = "macro" -> Closed(t, v)
      \* in templates quotes and brackets would have to match
      [] place \in {"template", "argument"} -> IF ~NoneOf(t, {"[", "]", "`", "."}) \/ Find(t, 1, "'''") # 0 \/ ~Solid(t) \/ C(t, Len(t)) = "\\" THEN Un(1) ELSE Closed(t, v)
      [] place \in {"code", "block", "listing"} -> IF Find(t, 1, "`") # 0 \/ Find(t, 1, "\n") # 0 \/ ~Solid(t) \/ CommentEnd(t, Skip(t, 1, Space)) # 0 THEN Un(1) ELSE R(1, CodeText(t, 1))
      [] place \in {"url", "func", "link"} -> Value2(place, t, v)
      [] place = "role" -> IF v < 107 THEN Un(1) ELSE Value2(place, t, v)
      [] place = "alt" -> LET r == Alt(t \o "]", 1, v)
                          IN IF v < 105 \/ t = "" \/ ~Solid(t) \/ Find(t, 1, "'''") # 0 \/ (~r.bad /\ r.e # Len(t) + 1) \/ C(t, Len(t)) = "\\" THEN Un(1) ELSE [r EXCEPT !.x = Map(@, EncAttr)]
      [] place = "file" -> LET r == File(t, 1) IN IF v < 106 \/ Find(t, 1, "'''") # 0 \/ ~Atend(t, r.e) \/ (t # "" /\ C(t, Len(t)) = "\\") THEN Un(1) ELSE [r EXCEPT !.x = Map("a" \o @ \o ".png", EncAttr)]
Places == <<"para", "heading", "section", "note", "footnote", "cell", "item", "macro", "template", "argument", "code", "block", "listing", "url", "func", "link", "role", "alt", "file">>

(* -------------------------------------------------------------- properties *)
VARIABLES src, at, out, ver, flags
vars == <<src, at, out, ver, flags>>
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE {a \o b : a \in Texts(n - 1), b \in Pieces \cup {""}}
Init == src \in {"x " \o s : s \in Texts(MaxPieces)} /\ at = 1 /\ out = <<>> /\ ver \in Versions /\ flags = {}
Step == LET r == CommonAt(src, at, ver)
        IN /\ at' = r.e
           /\ out' = Append(out, [s |-> Cut(src, at, r.e), x |-> r.x])
           /\ flags' = flags \cup (IF r.bad THEN {"bad"} ELSE {}) \cup (IF r.un THEN {"un"} ELSE {})
           /\ UNCHANGED <<src, ver>>
Next == ~ParaEnd(src, at) /\ flags = {} /\ Step
Spec == Init /\ [][Next]_vars
Decode(x) == LET a == FoldLeft(LAMBDA st, c : IF st.tag THEN [st EXCEPT !.tag = c # ">"] ELSE IF c = "<" THEN [st EXCEPT !.tag = TRUE] ELSE [st EXCEPT !.x = @ \o c], [tag |-> FALSE, x |-> ""], Chars(x))
             IN a.x
Fine == flags = {}
\* every step takes something, and the pieces tile the text
Tiles == FoldLeft(LAMBDA a, i : a \o i.s, "", out) = Cut(src, 1, at)
Moves == \A i \in 1..Len(out) : out[i].s # ""
\* a letter or digit that isn't part of an escape, a comment or a macro is in the output
Letter(c) == c \in Alpha \cup Digit
Plain(s) == \A k \in 1..Len(s) : C(s, k) \notin {"\\", "'", "[", "`", "m", "*", "/", "_", "="}
Kept == Fine => \A i \in 1..Len(out) : Plain(out[i].s) => out[i].x = Map(out[i].s, Enc)
\* < and & of the text are entities, outside '''...'''
Escaped == Fine /\ Find(src, 1, "'''") = 0 => LET x == FoldLeft(LAMBDA a, i : a \o i.x, "", out)
                                                  d == Decode(x)
                                              IN \A k \in 1..Len(d) : C(d, k) = "&" => At(d, k, "&lt;") \/ At(d, k, "&amp;")
\* tags match
Depth(x) == FoldLeft(LAMBDA n, k : IF At(x, k, "</") THEN n - 1 ELSE IF At(x, k, "<") /\ ~At(x, k, "<sbr/>") THEN n + 1 ELSE n, 0, [k \in 1..Len(x) |-> k])
Matched == Fine /\ Find(src, 1, "'''") = 0 => \A i \in 1..Len(out) : Depth(out[i].x) = 0
\* after a backslash punctuation is the character itself
Escapes == Fine => \A i \in 1..Len(out) : Len(out[i].s) = 2 /\ At(out[i].s, 1, "\\") /\ In(out[i].s, 2, Punct) => out[i].x = Enc(C(out[i].s, 2))
\* a text without anything special is its own output
Ordinary == Fine /\ ParaEnd(src, at) /\ Plain(src) => FoldLeft(LAMBDA a, i : a \o i.x, "", out) = Map(src, Enc)
\* the whole text is read the same way as step by step
Same == Fine /\ ParaEnd(src, at) => Para(src, 1, ver).x = FoldLeft(LAMBDA a, i : a \o i.x, "", out)
=============================================================================
