------------------------------- MODULE HtmlGen -------------------------------
(* BoostBook documents: all small arrangements of parts, every element in    *)
(* every other, and random documents with more of parts, elements, links or  *)
(* footnotes.  Texts ("w"), ids ("y", or a kind of name), and links ("L" and *)
(* a number) are filled in by the renderer.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
VARIABLE n
CONSTANTS Count, Profile
Emit(x) == PrintT(<<"@GEN", ToJson(x)>>)
Nd(t, id, r, u, k) == [t |-> t, x |-> "", id |-> id, r |-> r, u |-> u, k |-> k]
W == [t |-> "#", x |-> "w", id |-> "", r |-> "", u |-> "", k |-> <<>>]
Ws == [t |-> "#", x |-> "\n", id |-> "", r |-> "ws", u |-> "", k |-> <<>>]
P(k) == Nd("para", "", "", "", k)
Opt(single, css, g, b) == [single |-> single, css |-> css, graphics |-> g, boost |-> b]
Opts == {Opt(FALSE, "none", "none", "none"), Opt(TRUE, "path", "none", "url"), Opt(FALSE, "path", "path", "path"), Opt(FALSE, "url", "url", "none")}
Case(root, o) == Emit([root |-> root, o |-> o])
(* --------------------------------------------------------------- elements *)
Plain == {"simpara", "blockquote", "quote", "code", "macronname", "classname", "literal", "subscript", "superscript", "programlisting", "warning",
          "caution", "important", "note", "tip", "replaceable", "section", "functionname", "foo", "anchor"}
BlockTags == {"simpara", "blockquote", "programlisting", "warning", "caution", "important", "note", "tip"}
PhraseTags == {"quote", "code", "classname", "literal", "subscript", "superscript", "replaceable", "functionname", "macronname"}
\* an element around some content, b is its variety
Elements == Plain \cup {"emphasis", "emphasis-bold", "emphasis-x", "phrase", "phrase-x", "sidebar", "sidebar-blurb", "bridgehead", "bridgehead-2", "bridgehead-7",
            "ulink", "ulink-boost", "link", "link-lost", "footnote", "image", "image-none", "itemizedlist", "orderedlist", "variablelist", "table", "table-plain",
            "informaltable", "callouts", "para-x", "title-in", "sbr"}
Entry(k) == Nd("entry", "", "", "", k)
Row(ks) == Nd("row", "", "", "", [i \in 1..Len(ks) |-> Entry(ks[i])])
TableOf(t, id, title, head, rows) ==
    Nd(t, id, "", "", (IF title THEN <<Nd("title", "", "", "", <<W>>)>> ELSE <<>>)
        \o <<Nd("tgroup", "", "", "", (IF head = <<>> THEN <<>> ELSE <<Nd("thead", "", "", "", head)>>) \o <<Nd("tbody", "", "", "", rows)>>)>>)
Item(k) == Nd("listitem", "", "", "", k)
VarEntry(a, b) == Nd("varlistentry", "", "", "", <<Nd("term", "", "", "", a), Item(b)>>)
Around(e, k, id) ==
    CASE e \in Plain -> Nd(e, id, "", "", k)
      [] e = "sbr" -> Nd(e, id, "", "", <<>>)
      [] e = "emphasis" -> Nd("emphasis", id, "", "", k)
      [] e = "emphasis-bold" -> Nd("emphasis", id, "bold", "", k)
      [] e = "emphasis-x" -> Nd("emphasis", id, "underline", "", k)
      [] e = "phrase" -> Nd("phrase", id, "", "", k)
      [] e = "phrase-x" -> Nd("phrase", id, "keyword", "", k)
      [] e = "sidebar" -> Nd("sidebar", id, "", "", k)
      [] e = "sidebar-blurb" -> Nd("sidebar", id, "blurb", "", k)
      [] e = "bridgehead" -> Nd("bridgehead", id, "", "", k)
      [] e = "bridgehead-2" -> Nd("bridgehead", id, "", "sect2", k)
      [] e = "bridgehead-7" -> Nd("bridgehead", id, "", "sect7", k)
      [] e = "ulink" -> Nd("ulink", id, "", "U", k)
      [] e = "ulink-boost" -> Nd("ulink", id, "boost", "U", k)
      [] e = "link" -> Nd("link", id, "", "L", k)
      [] e = "link-lost" -> Nd("link", id, "", "lost", k)
      [] e = "footnote" -> Nd("footnote", id, "", "", k)
      [] e = "image" -> Nd("inlinemediaobject", id, "", "U", <<>>)
      [] e = "image-none" -> Nd("inlinemediaobject", id, "", "", <<>>)
      [] e = "itemizedlist" -> Nd("itemizedlist", id, "", "", <<Item(k), Ws, Item(<<W>>)>>)
      [] e = "orderedlist" -> Nd("orderedlist", id, "", "", <<Item(<<Nd("simpara", "", "", "", k)>>), Item(k)>>)
      [] e = "variablelist" -> Nd("variablelist", id, "", "", <<Ws, VarEntry(<<W>>, k), VarEntry(k, <<P(<<W>>)>>), Ws>>)
      [] e = "table" -> TableOf("table", id, TRUE, <<Row(<<<<W>>, k>>)>>, <<Row(<<k, <<P(<<W>>)>>>>), Row(<<<<W>>, <<>>>>)>>)
      [] e = "table-plain" -> TableOf("table", id, TRUE, <<>>, <<Row(<<k>>)>>)
      [] e = "informaltable" -> TableOf("informaltable", id, FALSE, <<Row(<<k>>)>>, <<>>)
      [] e = "many-callouts" -> Nd("phrase", "", "", "", <<Nd("programlisting", id, "", "", [i \in 1..24 |-> IF i % 2 = 1 THEN W ELSE Nd("co", "co", "", "C", <<>>)]),
                                Nd("calloutlist", "", "", "", [i \in 1..12 |-> Nd("callout", "C", "", "", IF i = 10 THEN k ELSE <<P(<<W>>)>>)])>>)
      [] e = "callouts" -> Nd("phrase", "", "", "", <<Nd("programlisting", id, "", "", <<W, Nd("co", "co", "", "C", <<>>), W, Nd("co", "co", "", "C", <<>>)>>),
                                Nd("calloutlist", "", "", "", <<Nd("callout", "C", "", "", k), Ws, Nd("callout", "C", "", "", <<P(<<W>>)>>)>>)>>)
      [] e = "para-x" -> Nd("para", id, "blurb", "", k)
      [] e = "title-in" -> Nd("section", id, "", "", <<Nd("title", "", "", "", k), P(<<W>>)>>)
(* ------------------------------------------------------------------- parts *)
Title(k) == Nd("title", "", "", "", k)
Chunk(t, id, title, info, content, subs) == Nd(t, id, "", "", (IF title = <<>> THEN <<>> ELSE <<Title(title)>>) \o info \o content \o subs)
\* all arrangements of m parts: parents and types
RECURSIVE Build(_, _, _, _)
Build(i, m, par, typ) ==
    LET sub == SelectSeq([j \in 1..m |-> j], LAMBDA j : j > 1 /\ par[j] = i)
    IN Chunk(typ[i], IF i = 2 /\ m > 3 THEN "index" ELSE "y", <<W>>, <<>>,
             <<P(<<W, Nd("link", "", "", "L", <<W>>)>> \o (IF i % 2 = 0 THEN <<Nd("footnote", "", "", "", <<P(<<W>>)>>)>> ELSE <<>>)), Nd("anchor", "y", "", "", <<>>)>>,
             [j \in 1..Len(sub) |-> Build(sub[j], m, par, typ)])
Shapes(m) == {p \in [1..m -> 0..(m - 1)] : p[1] = 0 /\ \A i \in 2..m : p[i] \in 1..(i - 1)}
Types(m) == {t \in [1..m -> {"article", "section"}] : t[1] = "article"}
AllParts(m) == \A par \in Shapes(m), typ \in Types(m), single \in BOOLEAN : Case(Build(1, m, par, typ), Opt(single, "none", "none", "none"))
\* (callouts are beside code, never in titles)
AllElements == \A e \in Elements, f \in Elements, o \in {Opt(FALSE, "none", "none", "none"), Opt(TRUE, "path", "path", "path")} :
    {e, f} # {"callouts", "title-in"} => Case(Chunk("article", "y", <<W>>, <<>>, <<Around(e, <<W, Around(f, <<W>>, "y"), W>>, "y"), Ws, Around(f, <<Around(e, <<>>, ""), W>>, "")>>,
               <<Chunk("section", "dot", <<W, Around(IF f = "callouts" THEN "quote" ELSE f, <<W>>, "")>>, <<>>, <<P(<<W>>)>>, <<>>), Chunk("chapter", "y", <<W>>, <<>>, <<Around(e, <<W>>, "y")>>, <<>>)>>), o)
(* ------------------------------------------------------------------ random *)
Pick(k, S) == RandomElement(S)
\* one choice of m
Dice(k, m) == RandomElement(1..m) = 1
Id(k) == IF Dice(k, 4) THEN RandomElement({"y", "y", "y", "dot", "foot"}) ELSE ""
RECURSIVE RPhrase(_, _)
RECURSIVE RPhrases(_, _)
RPhrases(k, d) == [i \in 1..RandomElement(1..(3 + 0 * k)) |-> RPhrase(k + i, d)]
RPhrase(k, d) ==
    IF d = 0 \/ Dice(k, 2) THEN W
    ELSE IF Profile = "parts" THEN Around(RandomElement({"link", "link-lost", "ulink", "anchor", "emphasis", "image", "ulink-boost"}), RPhrases(k, d - 1), Id(k))
    ELSE IF Profile = "notes" /\ Dice(k, 2) THEN Around("footnote", RandomElement({<<W>>, <<P(RPhrases(k, d - 1))>>, <<Ws, P(<<W>>), P(<<W>>)>>, RPhrases(k, d - 1),
            <<Around(RandomElement({"image", "ulink", "sbr", "anchor", "table-plain", "itemizedlist", "callouts", "emphasis", "variablelist"}), <<W>>, ""), W>>}), RandomElement({"", "y", "foot"}))
    ELSE Around(RandomElement(PhraseTags \cup {"emphasis", "emphasis-bold", "emphasis-x", "phrase", "phrase-x", "ulink", "link", "image", "sbr", "anchor", "footnote", "functionname", "ulink-boost"}), RPhrases(k, d - 1), Id(k))
RECURSIVE RBlock(_, _)
RECURSIVE RBlocks(_, _)
RBlocks(k, d) == [i \in 1..RandomElement(1..(2 + 0 * k)) |-> RBlock(k + i, d)]
RBlock(k, d) ==
    LET c == RandomElement(1..(12 + 0 * k))
    IN IF c <= 4 \/ d = 0 THEN Nd("para", Id(k), "", "", RPhrases(k, 2))
       ELSE IF c = 5 THEN Ws
       ELSE IF c = 6 THEN Around(RandomElement(BlockTags \cup {"sidebar", "sidebar-blurb"}), RBlocks(k, d - 1), Id(k))
       ELSE IF c = 7 THEN Around(RandomElement({"bridgehead", "bridgehead-2", "bridgehead-7", "para-x", "anchor"}), RPhrases(k, 1), Id(k))
       ELSE IF c = 8 THEN Nd(RandomElement({"itemizedlist", "orderedlist"}), Id(k), "", "", [i \in 1..RandomElement(1..(3 + 0 * k)) |-> Item(RBlocks(k + i, d - 1))])
       ELSE IF c = 9 THEN Nd("variablelist", Id(k), "", "", [i \in 1..RandomElement(0..(2 + 0 * k)) |-> VarEntry(RPhrases(k + i, 1), RBlocks(k + i, d - 1))])
       ELSE IF c = 10 THEN TableOf(RandomElement({"table", "informaltable"}), Id(k), Dice(k, 2), IF Dice(k, 2) THEN <<Row(<<RPhrases(k, 1), RPhrases(k, 1)>>)>> ELSE <<>>,
                                   [i \in 1..RandomElement(1..(2 + 0 * k)) |-> Row([j \in 1..RandomElement(1..(3 + 0 * i)) |-> RBlocks(k + j, d - 1)])])
       ELSE IF c = 11 THEN (IF Profile = "notes" \/ Dice(k, 3) THEN Around(IF Dice(k, 3) THEN "many-callouts" ELSE "callouts", RBlocks(k, d - 1), "") ELSE Around("programlisting", RPhrases(k, 1), ""))
       ELSE Around(RandomElement(Elements \ {"footnote", "title-in"}), RBlocks(k, d - 1), Id(k))
Person(k, t) == Nd(t, "", "", "", RandomElement({<<Nd("firstname", "", "", "", <<W>>), Nd("surname", "", "", "", <<W>>)>>, <<Nd("surname", "", "", "", <<W>>)>>,
                 <<Nd("personname", "", "", "", <<Nd("surname", "", "", "", <<W>>), Nd("honorific", "", "", "", <<W>>), Nd("firstname", "", "", "", <<W>>)>>)>>}))
RInfo(k, t) ==
    IF Dice(k, 3) THEN <<>>
    ELSE <<Nd(t \o "info", "", "", "", [i \in 1..RandomElement(0..(4 + 0 * k)) |->
             LET c == RandomElement(1..(7 + 0 * i))
             IN CASE c = 1 -> Nd("authorgroup", "", "", "", [j \in 1..RandomElement(1..(3 + 0 * i)) |-> Person(k + j, RandomElement({"author", "author", "editor"}))])
                  [] c = 2 -> Person(k, "author")
                  [] c = 3 -> Nd("copyright", "", "", "", [j \in 1..RandomElement(0..(3 + 0 * i)) |-> Nd("year", "", "", "", <<W>>)]
                                                            \o [j \in 1..RandomElement(0..(2 + 0 * i)) |-> Nd("holder", "", "", "", <<W>>)])
                  [] c = 4 -> Nd("legalnotice", "", "", "", RBlocks(k, 1))
                  [] c = 5 -> Nd("pubdate", "", "", "", <<W>>)
                  [] c = 6 -> Nd(RandomElement({"corpcredit", "othercredit"}), "", RandomElement({"", "translator"}), "", <<Nd("surname", "", "", "", <<W>>)>>)
                  [] OTHER -> Nd("articlepurpose", "", "", "", <<W>>)])>>
RECURSIVE RChunk(_, _, _)
RChunk(k, t, d) ==
    Chunk(t, IF t = "section" /\ Dice(k, 12) THEN "" ELSE RandomElement({"y", "y", "y", "dot", "dot", "index", "page", "y"}),
          IF Dice(k, 10) THEN <<>> ELSE IF Dice(k, 3) THEN RPhrases(k, 1) ELSE <<W>>, RInfo(k, t),
          (IF Dice(k, 5) THEN <<>> ELSE IF Profile = "parts" THEN <<P(RPhrases(k, 1))>> ELSE RBlocks(k, IF Profile = "notes" THEN 1 ELSE 2)),
          IF d = 0 THEN <<>>
          ELSE [i \in 1..RandomElement(0..((IF Profile = "parts" THEN 3 ELSE 2) + 0 * k)) |->
                   RChunk(k + i, RandomElement({"section", "section", "section", "chapter", "article", "library", "appendix"}), d - 1)])
GInit == n = 0
ANext == n = 0 /\ n' = 1 /\ (IF Profile = "parts" THEN AllParts(2) /\ AllParts(3) /\ AllParts(4) /\ (Count = 0 \/ AllParts(5)) ELSE AllElements)
ASpec == GInit /\ [][ANext]_n
RNext == n < Count /\ n' = n + 1 /\ Case(RChunk(n, RandomElement({"article", "book", "library"}), IF Profile = "content" THEN 1 ELSE RandomElement({2, 3, n * 0 + 3})), Pick(n, Opts))
RSpec == GInit /\ [][RNext]_n
=============================================================================
