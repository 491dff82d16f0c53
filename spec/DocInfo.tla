------------------------------- MODULE DocInfo -------------------------------
(* The information block of a document and the header made from it.  A       *)
(* document is [type, title, attrs]; attributes are [k, v] with a kind and a  *)
(* value, which depends on the kind: texts [q, e, r], q as it is written, e   *)
(* what it stands for, r what it is as XML; lists of authors and of copyrights; versions; pairs.   *)
(* Before 1.6 texts are taken as they are written.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Docs
Single == {"id", "lang", "dirname", "last-revision", "purpose", "license", "version"}
Several == {"authors", "copyright", "category", "biblioid", "escaped"}
Ks == Single \cup Several \cup {"quickbook", "source-mode", "compatibility-mode"}

Empty == [k \in Ks |-> <<>>]
Start(d) == [todo |-> d.attrs, info |-> Empty]
\* an attribute that is given again replaces the one before it; of some kinds there can be several
Step(m) == LET a == Head(m.todo)
           IN [todo |-> Tail(m.todo), info |-> [m.info EXCEPT ![a.k] = IF a.k \in Several THEN Append(@, a.v) ELSE <<a.v>>]]
RECURSIVE Run(_)
Run(m) == IF m.todo = <<>> THEN m ELSE Run(Step(m))

Known(v) == v \in 100..107
Years(y) == IF y.to = 0 THEN <<y.from>> ELSE [i \in 1..(y.to - y.from + 1) |-> y.from + i - 1]
Flat(qs) == FoldLeft(LAMBDA a, x : a \o x, <<>>, qs)
Map(f, Op(_)) == [i \in 1..Len(f) |-> Op(f[i])]
\* The header of a document, its attributes read in version v.  outer is the
\* version of the document that includes it (0 if there is none).
Header(d, info) ==
    LET given == IF info["quickbook"] = <<>> THEN 101 ELSE info["quickbook"][1]
        v == given
        T(x) == IF v < 106 THEN x.r ELSE x.e          \* a text
        P(x) == IF v < 103 THEN x.r ELSE x.e          \* with markup in it
        ranges == Flat(Flat(Map(info["copyright"], LAMBDA c : Map(c, LAMBDA h : h.years))))
    IN [bad |-> ~Known(v) \/ (info["compatibility-mode"] # <<>> /\ ~Known(info["compatibility-mode"][1])) \/ \E i \in 1..Len(ranges) : ranges[i].to # 0 /\ ranges[i].to < ranges[i].from,
        type |-> d.type,
        title |-> T(d.title) \o (IF info["version"] = <<>> THEN "" ELSE " " \o T(info["version"][1])),
        id |-> Map(info["id"], LAMBDA x : x.q),
        lang |-> Map(info["lang"], T),
        name |-> IF d.type = "library" THEN <<T(d.title)>> ELSE <<>>,
        \* a library has always a folder
        dirname |-> IF info["dirname"] # <<>> THEN Map(info["dirname"], T) ELSE IF d.type # "library" THEN <<>> ELSE IF info["id"] # <<>> THEN Map(info["id"], LAMBDA x : x.q) ELSE <<d.ident>>,
        revision |-> Map(info["last-revision"], T),
        authors |-> Flat(Map(info["authors"], LAMBDA a : Map(a, LAMBDA x : [first |-> T(x.first), surname |-> T(x.surname)]))),
        copyrights |-> Flat(Map(info["copyright"], LAMBDA c : Map(c, LAMBDA h : [years |-> Flat(Map(h.years, Years)), holder |-> T(h.holder)]))),
        license |-> Map(info["license"], P),
        purpose |-> Map(info["purpose"], P),
        categories |-> Map(info["category"], T),
        biblioids |-> Map(info["biblioid"], LAMBDA b : [class |-> b.class, value |-> T(b.value)]),
        escaped |-> Map(info["escaped"], LAMBDA x : x.e)]
HeaderOf(d) == Header(d, Run(Start(d)).info)

(* ------------------------------------------------------------- properties *)
VARIABLES d, m
\* Docs is a sequence, as attributes can't be compared
Init == \E i \in 1..Len(Docs) : d = Docs[i] /\ m = Start(d)
Next == m.todo # <<>> /\ m' = Step(m) /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, m>>
Complete == m.todo = <<>>
Given(k) == SelectSeq(d.attrs, LAMBDA a : a.k = k)
\* nothing is invented, nothing is lost, and order is kept
Kept == Complete => \A k \in Ks :
    LET g == Given(k)
    IN m.info[k] = (IF k \in Several THEN [i \in 1..Len(g) |-> g[i].v] ELSE IF g = <<>> THEN <<>> ELSE <<Last(g).v>>)
\* the order of attributes of different kinds does not matter
Unordered == Complete => \A i \in 1..(Len(d.attrs) - 1) :
    d.attrs[i].k # d.attrs[i + 1].k => HeaderOf([d EXCEPT !.attrs = [@ EXCEPT ![i] = d.attrs[i + 1], ![i + 1] = d.attrs[i]]]) = HeaderOf(d)
Nothing == Complete /\ d.attrs = <<>> => LET h == HeaderOf(d) IN
    \A f \in {"id", "lang", "revision", "authors", "copyrights", "license", "purpose", "categories", "biblioids", "escaped"} : h[f] = <<>>
=============================================================================
