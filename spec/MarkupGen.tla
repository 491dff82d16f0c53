------------------------------ MODULE MarkupGen ------------------------------
(* Documents with every kind of element in every other one, for which only    *)
(* the form of what is written is looked at: [v, head, main, b, c], with the  *)
(* information of the document, its text, a text that it can include and one  *)
(* for comments of its snippets.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Most, Count
VARIABLE n
Text(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)
\* x with y in the place of every @
Fill(f, y) == FoldLeft(LAMBDA a, k : a \o (IF SubSeq(f, k, k) = "@" THEN y ELSE SubSeq(f, k, k)), "", [k \in 1..Len(f) |-> k])
Words == <<"w", "a<b>&\"c'", "&amp;", "<b>", "]]>", "[*b<]", "['i]", "[^t\"]", "[\"q]", "*b<c*", "=t=", "/i&/", "`c<d>&\"`", "``x < \"y\" && z``", "[br]", "\\n", "\\<\\&\\\"", "\\u0026\\u003c", "'''<r a=\"1\">&amp;</r>'''",
    "[$http://a.b/c.png]", "[$i<\".png]", "[$a/b.svg]", "[$i.png [alt a<\"b&c]]", "[$i.png [width 2\"<] [role x]]", "[$i.png [2x y]]", "[$i.png [ y]]", "[$i.png [fileref y]]", "[$]", "[#an]", "[#a\"n<&]", "[#]",
    "[link d.i l]", "[link a\"<b l]", "[link x]", "[funcref f<g>\"& l]", "[classref c]", "[headerref h\"h]", "[footnote n]", "[footnote [footnote n]]", "[role r\"<& w]", "[role r w]",
    "mm", "mb", "mraw", "[tp]", "[tb]", "[ta x<y..z]", "[ta]", "[? mm y]", "[? nn n]", "[/ c]", "[teletype]", "[c++]", "__FILENAME__", "[note b]", "[h2 h]", "[table t [[a][b]]]", "[sn]", "[su]", "[\\u003cx]", "[]", "[[", "[ [* b] ]",
    "`/*< c >*/`", "``int x; /*< c<[*d] >*/``", "[xinclude x.xml]", "[section s]", "[endsect]", "--", "[include b.qbk]", "[heading h]", "[~r]", "[-s]", "[_u]", "[conceptref c&]", "[globalref g]", "[macroref m]", "[enumref e]", "[memberref m<]",
    "[* a [footnote b] c]", "[section:i\"j s]", "[table:t\"i t [[a]]]", "[h1:a<b c]", "[blurb b]", "[br] [br]", "[: q]", "[variablelist t [[a][b]]]", "``` x<&\" ```", "[import c.cpp]", "md", "[$s.svg]", "[$t.svg]", "[~a\\\n]", "[template]", "[def]", "[footnote [tb]]", "[footnote * a]", "'''&#60;'''", "''''''", "[@x\"<&y]">>
Urls == <<"[@", "http://a/", "?b=c&d=\"e\"<f> l]">>
\* containers for phrases, and for blocks
Phrases == <<"@", "[*@]", "['@]", "[^@]", "[\"@]", "[@@]", "[link d.i @]", "[funcref f @]", "[footnote @]", "[role r @]", "[? mm @]", "[ta @..@]", "@ @", "*@*", "[$i.png [alt @]]", "[#@]", "[tp @]", "``@``", "`@`", "[@http://@]">>
Blocks == <<"@\n\n", "[section @]\n\np @\n\n[endsect]\n\n", "[section:i @]\n[endsect]\n", "[h3 @]\n\n", "[heading @]\n\n", "[h2:i @]\n\n", "[note @]\n\n", "[warning @]\n\n", "[blurb @]\n\n", "[: @]\n\n", "[pre @]\n\n", "[table @\n[[@]]\n[[@][x]]\n]\n\n",
    "[table t\n[[@]]\n]\n\n", "[variablelist @\n[[@][@]]\n]\n\n", "[ordered_list [@][x]]\n\n", "[itemized_list [@]]\n\n", "* @\n* x\n\n", "# @\n  * @\n# x\n\n", "[def dd @]\n\ndd *dd*\n\n", "[template tq[] @]\n\n[tq] x [tq]\n\n", "[template tw[x]\n@ [x]\n]\n\n[tw @]\n\n", "[block @]\n\n",
    "    @ < &\n\n", "[c++]\n```\nint a; /*< @ >*/ // < ``[*@]``\n```\n\n", "[section q]\n\n@\n\n[section r]\n\n@\n\n[endsect]\n[endsect]\n\n", "[note\n@\n\n@]\n\n", "[table t\n[[\n* @\n\nx @\n]]\n]\n\n", "[? mm\n@\n]\n\n", "[? nn @]\n\n", "p @\n@\n\n----\n\n", "[section @]\n@", "[endsect]\n", "[xinclude @]\n\n",
    "[include b.qbk]\n\n", "[import c.cpp]\n\n[sn]\n\n[su]\n\n", "[id @]\n\n", "[template tz @ [x]]\n\n[tz]\n\n", "[table:i @\n[[@]]\n]\n\n", "#@\n\n", "[important @]\n@\n\n", "[h6 @]\n@\n\n", "[section @ [#an2]]\n\n[endsect]\n\n", "[hr]\n@\n\n", "----\n@\n\n">>
Outer == <<"[section q]\n\n@\n\n[endsect]\n\n", "[note\n@\n]\n\n", "[table t\n[[\n@\n]]\n]\n\n", "[template tb2[]\n@\n]\n\n[tb2]\n\n", "[:\n@\n]\n\n", "[blurb\n@\n]\n\n", "p[footnote\n@\n]\n\n", "[? mm\n@\n]\n\n", "[ordered_list [\n@\n]]\n\n", "[variablelist t\n[[x][\n@\n]]\n]\n\n", "* x\n\n  @\n\n", "[block\n@\n]\n\n",
    "[template tb3[x]\n[x]\n]\n\n[tb3\n@\n]\n\n", "[pre\n@\n]\n\n", "@@", "[section q]\n@">>
Versions == {103, 105, 106, 107}
Heads == <<"[article T\n@[id d]\n]\n\n", "[library T < U\n@[id d]\n[authors [A<B, C\"D]]\n[license L<\"]\n[purpose P&]\n[category c\"d]\n[copyright 2001-2003 H<I]\n]\n\n", "[book B\n@[lang e\"n]\n[biblioid isbn 1<2]\n[version 1<2]\n[last-revision x\"]\n]\n\n",
    "[part P\n@]\n\n", "[chapter C\n@[dirname d\"e]\n[compatibility-mode 1.5]\n]\n\n", "[article T\n@[purpose [*b] < c]\n[license [@http://x y] [footnote m [footnote n]]]\n[source-mode teletype]\n]\n\n">>
Case(v, h, t, b, c) == PrintT(<<"@GEN", ToJson([v |-> v, head |-> Fill(Heads[h], "[quickbook 1." \o ToString(v - 100) \o "]\n"), main |-> t, b |-> b, c |-> c])>>)
Sometimes(k, m) == RandomElement(1..(m + 0 * k)) = 1
All ==
    /\ \A i \in 1..Len(Blocks) : \A j \in 1..Len(Words) : \A v \in Versions : Sometimes(i + j + v, Most) => Case(v, 1, Fill(Blocks[i], Words[j]), "b\n", "c")
    /\ \A i \in 1..Len(Phrases) : \A j \in 1..Len(Words) : \A v \in Versions : Sometimes(i + j + v, Most) => Case(v, 1, "p " \o Fill(Phrases[i], Words[j]) \o "\n\n", "b\n", "c")
    /\ \A i \in 1..Len(Outer) : \A j \in 1..Len(Blocks) : \A v \in Versions : Sometimes(i + j + v, Most) => Case(v, 1, Fill(Outer[i], Fill(Blocks[j], "w")), "b\n", "c")
    /\ \A i \in 1..Len(Blocks) : \A v \in Versions : Case(v, 1, "x\n\n[include b.qbk]\n\n", Fill(Blocks[i], "w"), "c")
    /\ \A j \in 1..Len(Words) : \A v \in Versions : Case(v, 1, "[import c.cpp]\n\n[sn]\n\n[su]\n\n", "b\n", Words[j]) /\ Case(v, 1, "x\n", Words[j], "c")
    /\ \A h \in 1..Len(Heads) : \A v \in {106, 107} : Case(v, h, "x\n\n[section s]\n[endsect]\n", "b", "c")
(* random *)
Of(k, q) == q[RandomElement(1..(Len(q) + 0 * k))]
RECURSIVE Phrase(_, _), Block(_, _), Body(_, _)
Phrase(k, d) == IF d = 0 \/ Sometimes(k, 2) THEN Of(k, Words) ELSE LET a == Phrase(k * 2, d - 1) IN Fill(Of(k, Phrases), a)
Block(k, d) == IF d = 0 \/ Sometimes(k, 2) THEN LET a == Phrase(k, 2) IN Fill(Of(k, Blocks), a) ELSE LET a == Body(k, d - 1) IN Fill(Of(k, Outer), a)
Body(k, d) == LET a == Block(k, d) IN IF Sometimes(k, 2) THEN a ELSE a \o Body(k + 1, d)
Random(k) == \A x \in {<<RandomElement(Versions), IF Sometimes(k, 3) THEN 1 ELSE RandomElement(1..Len(Heads)), Body(k, 2), Body(k, 1), Phrase(k, 1)>>} :
                Case(x[1], IF x[1] < 106 THEN 1 ELSE x[2], x[3], x[4], x[5])
ASpec == n = 0 /\ All /\ [][n' = n /\ FALSE]_n
Init == n = 0
Next == n < Count /\ Random(n) /\ n' = n + 1
Spec == Init /\ [][Next]_n
=============================================================================
