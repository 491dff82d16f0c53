----------------------------- MODULE DocInfoGen -----------------------------
(* Documents with every short sequence of attributes, and random ones; alone *)
(* and included by a document.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Most, Count
VARIABLE n
X(q, e) == [q |-> q, e |-> e, r |-> q]
Same(x) == X(x, x)
A(k, v) == [k |-> k, v |-> v]
Y(a, b) == [from |-> a, to |-> b]
H(ys, h) == [years |-> ys, holder |-> h]
Au(f, s) == [first |-> f, surname |-> s]
Types == {"book", "article", "library", "chapter", "part", "appendix", "preface", "qandadiv", "qandaset", "reference", "set"}
Case(type, title, attrs, before, outer) == PrintT(<<"@GEN", ToJson([type |-> type, title |-> title, ident |-> "the_title", attrs |-> attrs, before |-> before, outer |-> outer])>>)
Few == <<A("id", Same("i1")), A("lang", Same("de")), A("dirname", Same("dir")), A("last-revision", Same("yesterday")), A("purpose", X("for *use*", "for use")), A("license", Same("public")),
        A("version", Same("1.0")), A("authors", <<Au(Same("Ann"), Same("Ax")), Au(Same("Bob"), Same("By"))>>), A("authors", <<Au(Same("Cid"), Same("Cx"))>>),
        A("copyright", <<H(<<Y(2001, 0), Y(2003, 2005)>>, Same("Ho")), H(<<Y(1999, 0)>>, Same("Hp, Hq"))>>), A("copyright", <<H(<<Y(2010, 2009)>>, Same("Hr"))>>), A("copyright", <<H(<<Y(2010, 2010)>>, Same("Hs"))>>),
        A("category", Same("one")), A("category", Same("two")), A("biblioid", [class |-> "isbn", value |-> Same("1-2")]), A("biblioid", [class |-> "uri", value |-> Same("u/v")]),
        A("escaped", X("<edition>e1</edition>", "e1")), A("source-mode", "teletype"), A("lang", Same("fr")), A("quickbook", 106), A("quickbook", 105), A("compatibility-mode", 105)>>
Title == Same("The Title")
Q(v) == A("quickbook", v)
All == \A l \in 0..Most : \A f \in [1..l -> 1..Len(Few)] : LET q == [i \in 1..l |-> Few[f[i]]] IN
         /\ Case("article", Title, <<Q(107)>> \o q, FALSE, 0)
         /\ Case("library", Title, q \o <<Q(106)>>, FALSE, 0)
         /\ l < Most => \A o \in {105, 107} : Case("article", Title, <<Q(107)>> \o q, FALSE, o)
MCDocs == LET fs == SetToSeq({"article", "library"} \X UNION {[1..l -> 1..Len(Few)] : l \in 0..Most})
          IN [i \in 1..Len(fs) |-> [type |-> fs[i][1], title |-> Title, ident |-> "the_title", attrs |-> [j \in 1..Len(fs[i][2]) |-> Few[fs[i][2][j]]]]]
(* random *)
Pick(k, S) == RandomElement(S)
Wd(k) == RandomElement({"Ann", "b", "Mr. C", "d-e", "f 1", "x/y", "2001", "=a=", "g, h", "'h'", "_i_", "mm"})
\* written differently from what it means
Odd(k, v) == Pick(k, {[q |-> "A &amp; B", e |-> "A &amp; B", r |-> "A & B"], X("mm", "MM"), X("a\\]b", "a]b"), X("mmx", "mmx"), X("p mm q", "p MM q"), X("a\\\\b", "a\\b")} \cup (IF v >= 106 THEN {X("A & B", "A & B"), X("\"q\"", "\"q\""), X("<b>", "<b>"), X("&lt;", "&lt;")} ELSE {}))
Txt(k, v) == IF Pick(k, 1..3) = 1 THEN Odd(k, v) ELSE LET w == Wd(k) IN X(w, IF w = "mm" THEN "MM" ELSE w)
NoComma(k, v) == LET x == Txt(k, v) IN IF x.q \in {"g, h"} THEN Same("gh") ELSE x
\* with markup: only words
Phr(k, v) == Pick(k, {Same("words"), X("some *bold* x", "some bold x"), X("[*b] y", "b y"), X("mm", "MM"), X("a 'b c", "a 'b c"), X("see [@http://a.b/ there]", "see there"), X("[link x y]", "y")})
Holder(k, v) == LET x == NoComma(k, v) IN IF x.q \in {"2001"} THEN Same("Own") ELSE x
Year(k) == IF Pick(k, 1..2) = 1 THEN Y(RandomElement(1990..(2030 + 0 * k)), 0)
           ELSE LET a == RandomElement(1990..(2030 + 0 * k)) IN Y(a, a + RandomElement({0, 1, 2, 5, IF Pick(k, 1..8) = 1 THEN 0 - 1 ELSE 3}))
Attr(k, v) ==
    LET c == Pick(k, 1..16)
    IN CASE c = 1 -> A("id", Same(Pick(k, {"a", "b_1", "c.d"})))
         [] c = 2 -> A("lang", Txt(k, v)) [] c = 3 -> A("dirname", Txt(k, v)) [] c = 4 -> A("last-revision", Txt(k, v)) [] c = 5 -> A("purpose", Phr(k, v))
         [] c = 6 -> A("license", Phr(k, v)) [] c = 7 -> A("version", Txt(k, v))
         [] c <= 9 -> A("authors", [i \in 1..RandomElement(1..(3 + 0 * k)) |-> Au(Txt(k + i, v), NoComma(k + i, v))])
         [] c <= 11 -> A("copyright", [i \in 1..RandomElement(1..(3 + 0 * k)) |-> H([j \in 1..RandomElement(1..(3 + 0 * i)) |-> Year(k + j)], Holder(k + i, v))])
         [] c = 12 -> A("category", Txt(k, v))
         [] c = 13 -> A("biblioid", [class |-> Pick(k, {"isbn", "uri", "doi2"}), value |-> Txt(k, v)])
         [] c = 14 -> A("escaped", Pick(k, {X("<edition>e1</edition>", "e1"), X("<pubdate>e2</pubdate>", "e2")}))
         [] c = 15 -> A("source-mode", Pick(k, {"c++", "python", "teletype"}))
         [] OTHER -> A("lang", Same("en"))
Random(k) ==
    LET v == Pick(k, {101, 102, 103, 105, 106, 107, 107, 107})
        as == [i \in 1..RandomElement(0..(9 + 0 * k)) |-> Attr(k + i, v)]
        at == RandomElement(0..(Len(as) + 0 * k))
        before == Pick(k, 1..6) = 1
        vs == IF v = 101 /\ Pick(k, BOOLEAN) THEN <<>> ELSE IF Pick(k, 1..40) = 1 THEN <<Q(Pick(k, {99, 108, 200}))>> ELSE <<Q(v)>>
        t == Pick(k, {Title, Title, Title, X("Title mm", "Title MM"), X("T \\[x\\]", "T [x]")} \cup (IF v >= 106 THEN {X("A & \"B\"", "A & \"B\"")} ELSE {}))
    IN Case(Pick(k, Types), IF t = Title \/ \E i \in 1..Len(as) : as[i].k \in {"id", "dirname"} THEN t ELSE Title, IF before THEN vs \o as ELSE SubSeq(as, 1, at) \o vs \o SubSeq(as, at + 1, Len(as)),
            before /\ vs # <<>>, Pick(k, {0, 0, 0, 105, 106, 107}))
Init == n = 0
ANext == n = 0 /\ n' = 1 /\ All
RNext == n < Count /\ n' = n + 1 /\ Random(n)
ASpec == Init /\ [][ANext]_n
RSpec == Init /\ [][RNext]_n
=============================================================================
