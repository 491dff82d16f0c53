-------------------------------- MODULE Paths --------------------------------
(* Locations, relative paths and URLs.  A path is a text (a sequence of       *)
(* character codes); a walker at a location (a sequence of names from the    *)
(* root) follows it one component at a time.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SL == 47  DOT == 46  PCT == 37  QM == 63  HASH == 35  COLON == 58
Here == <<DOT>>
Up == <<DOT, DOT>>
FilePrefix == <<102, 105, 108, 101, 58, 47, 47>>       \* file://

\* the parts of a text between separators
RECURSIVE SplitAt(_, _, _, _)
SplitAt(t, i, cur, acc) ==
    IF i > Len(t) THEN Append(acc, cur)
    ELSE IF t[i] = SL THEN SplitAt(t, i + 1, <<>>, Append(acc, cur))
    ELSE SplitAt(t, i + 1, Append(cur, t[i]), acc)
Split(t) == SplitAt(t, 1, <<>>, <<>>)
\* its names: neither empty nor "."
Names(t) == SelectSeq(Split(t), LAMBDA c : c # <<>> /\ c # Here)
Absolute(t) == t # <<>> /\ t[1] = SL
EndsWithSlash(t) == t # <<>> /\ t[Len(t)] = SL

(* ---------------------------------------------------------------- walking *)
Step(loc, c) ==
    IF c = Here \/ c = <<>> THEN loc
    ELSE IF c = Up THEN (IF loc = <<>> THEN loc ELSE SubSeq(loc, 1, Len(loc) - 1))
    ELSE Append(loc, c)
Walk(loc, cs) == FoldLeft(Step, loc, cs)
\* where a path leads from a location
Follow(loc, t) == Walk(IF Absolute(t) THEN <<>> ELSE loc, Names(t))

(* ---------------------------------------------------------- relative paths *)
RECURSIVE Common(_, _, _)
Common(a, b, n) == IF n < Len(a) /\ n < Len(b) /\ a[n + 1] = b[n + 1] THEN Common(a, b, n + 1) ELSE n
Drop(a, n) == SubSeq(a, n + 1, Len(a))
Ups(n) == [i \in 1..n |-> Up]
\* the relative path from location b to location p; to a file, it names it
Relative(b, p, file) ==
    LET n0 == Common(b, p, 0)
        n == IF file /\ n0 = Len(p) /\ n0 > 0 THEN n0 - 1 ELSE n0
        r == Ups(Len(b) - n) \o Drop(p, n)
    IN IF r = <<>> THEN <<Here>> ELSE r

\* What a relative path must be, however it is computed
LeadsTo(b, p, file, t) ==
    /\ ~Absolute(t) /\ t # <<>>
    /\ Follow(b, t) = p
    /\ (file /\ p # <<>>) => LET ns == Names(t) IN ns # <<>> /\ ns[Len(ns)] = p[Len(p)]

(* ------------------------------------------------------------------- URLs *)
Alnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
Hex(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
IsEsc(t, i) == t[i] = PCT /\ i + 2 <= Len(t) /\ Hex(t[i + 1]) /\ Hex(t[i + 2])
\* a URL's characters, escaped ones as their byte plus 1000
RECURSIVE UnitsFrom(_, _)
UnitsFrom(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF IsEsc(t, i) THEN <<1000 + 16 * HexVal(t[i + 1]) + HexVal(t[i + 2])>> \o UnitsFrom(t, i + 3)
    ELSE <<t[i]>> \o UnitsFrom(t, i + 1)
Units(t) == UnitsFrom(t, 1)
Plain(us) == [i \in 1..Len(us) |-> us[i] % 1000]
Decode(t) == Plain(Units(t))

\* -_.!~*'()?\/  and, for text that is a URL already, :&=#%+
Marks == {45, 95, 46, 33, 126, 42, 39, 40, 41, 63, 92, 47}
UrlMarks == Marks \cup {58, 38, 61, 35, 37, 43}
EscapeUnits(t, marks) == [i \in 1..Len(t) |-> IF Alnum(t[i]) \/ (t[i] \in marks /\ t[i] # PCT) THEN t[i] ELSE 1000 + t[i]]
Escape(t) == EscapeUnits(t, Marks)
\* escapes that are already there stay
PartialFrom(us) == [i \in 1..Len(us) |-> IF us[i] >= 1000 \/ Alnum(us[i]) \/ (us[i] \in UrlMarks /\ us[i] # PCT) THEN us[i] ELSE 1000 + us[i]]
Partial(t) == PartialFrom(Units(t))
\* a URL text for a sequence of units
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Write(us) == FoldLeft(LAMBDA a, u : a \o (IF u < 1000 THEN <<u>> ELSE <<PCT, HexDigit((u % 1000) \div 16), HexDigit((u % 1000) % 16)>>), <<>>, us)

\* Characters with a meaning of their own, or none, in a URL's path
Reserved == {QM, HASH, COLON, 32, 34, 60, 62, 92, 94, 96, 123, 124, 125} \cup (0..31) \cup (127..255)
NoReserved(t) == \A i \in 1..Len(t) : t[i] \notin Reserved
BadPct(t) == \E i \in 1..Len(t) : t[i] = PCT /\ ~IsEsc(t, i)
\* what a browser makes of a URL's path: names, each decoded
UrlNames(u) == LET s == SelectSeq(Split(u), LAMBDA c : c # <<>> /\ c # Here) IN [i \in 1..Len(s) |-> Decode(s[i])]
HasPrefix(t, w) == Len(t) >= Len(w) /\ SubSeq(t, 1, Len(w)) = w
\* u is a URL for the path t
UrlFor(u, t, dir) ==
    LET abs == HasPrefix(u, FilePrefix)
        p == IF abs THEN Drop(u, Len(FilePrefix)) ELSE u
    IN /\ abs = Absolute(t)
       /\ abs => Absolute(p)
       /\ ~abs => ~Absolute(p)
       /\ NoReserved(p) /\ ~BadPct(p)
       /\ UrlNames(p) = Names(t)
       /\ dir => EndsWithSlash(p)
       /\ (~dir /\ t # <<>> /\ ~EndsWithSlash(t) /\ Last(Split(t)) \notin {Here, Up}) => ~EndsWithSlash(p)

\* where a URL leads from a location
FollowUrl(loc, u) == IF HasPrefix(u, FilePrefix) THEN Walk(<<>>, UrlNames(Drop(u, Len(FilePrefix)))) ELSE Walk(loc, UrlNames(u))

\* Nested documents: each may move the base of the URLs in its output with an
\* xml:base.  A document: [dir |-> its location, base |-> the path it gives
\* (<<>>: none), url |-> the xml:base in its output].  BasesOK: every xml:base
\* leads to the place meant; BaseOf: where URLs start at the innermost level.
RECURSIVE BaseOf(_, _)
BaseOf(b0, docs) ==
    IF docs = <<>> THEN b0
    ELSE LET d == Head(docs) IN BaseOf(IF d.base = <<>> THEN b0 ELSE Follow(d.dir, d.base), Tail(docs))
BasesOK(b0, docs) ==
    \A i \in 1..Len(docs) :
        IF docs[i].base = <<>> THEN docs[i].url = <<>>
        ELSE /\ FollowUrl(BaseOf(b0, SubSeq(docs, 1, i - 1)), docs[i].url) = Follow(docs[i].dir, docs[i].base)
             /\ EndsWithSlash(docs[i].url)
XincludeOK(b0, docs, p, href) ==
    LET want == Follow(Last(docs).dir, p)
        ns == UrlNames(href)
    IN /\ NoReserved(IF HasPrefix(href, FilePrefix) THEN Drop(href, Len(FilePrefix)) ELSE href)
       /\ FollowUrl(BaseOf(b0, docs), href) = want
       /\ ns # <<>> /\ (want # <<>> => Last(ns) = Last(want))

\* command line parameters that are a URL rather than a path
SchemeChar(c) == c \in 65..90 \/ c \in 97..122 \/ c \in {43, 45, 46}
RECURSIVE SchemeEnd(_, _)
SchemeEnd(t, i) == IF i <= Len(t) /\ SchemeChar(t[i]) THEN SchemeEnd(t, i + 1) ELSE i
IsUrl(t) == LET e == SchemeEnd(t, 1) IN e > 2 /\ e <= Len(t) /\ t[e] = COLON
\* t / x : in the folder that the URL is of
Inside(t, x) == t \o (IF t # <<>> /\ t[Len(t)] = SL THEN <<>> ELSE <<SL>>) \o x

(* ------------------------------------------------------------------ model *)
\* A walker who was told a relative path follows it, component by component.
CONSTANTS CompSet, MaxComps
VARIABLES base, path, file, at, todo
vars == <<base, path, file, at, todo>>
ModelComps == {<<97>>, <<98>>, Up, <<97, 37, 50, 48>>, <<113, 63>>, <<195, 169, 32>>}
Locs == UNION {[1..n -> CompSet] : n \in 0..MaxComps}
Init == /\ base \in {Walk(<<>>, l) : l \in Locs} /\ path \in {Walk(<<>>, l) : l \in Locs} /\ file \in BOOLEAN
        /\ at = base /\ todo = Relative(base, path, file)
Next == todo # <<>> /\ at' = Step(at, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<base, path, file>>
Spec == Init /\ [][Next]_vars
Arrives == todo = <<>> => at = path
Join(cs) == FoldLeft(LAMBDA a, c : IF a = <<>> THEN c ELSE a \o <<SL>> \o c, <<>>, cs)
Told == at = base /\ todo = Relative(base, path, file) => LeadsTo(base, path, file, Join(todo))
\* no shorter path leads there, unless the file is to be named
Shortest == (~file /\ at = base /\ todo # <<Here>> /\ todo = Relative(base, path, file)) => Len(todo) = Len(base) + Len(path) - 2 * Common(base, path, 0)
\* URLs of names made of the components
UrlOf(cs) == Write([i \in 1..Len(Escape(Join(cs))) |-> LET u == Escape(Join(cs))[i] IN IF u \in {QM, 92} THEN 1000 + u ELSE u])
UrlOK == path # <<>> => UrlFor(UrlOf(path), Join(path), FALSE) /\ UrlFor(UrlOf(path) \o <<SL>>, Join(path), TRUE)
                        /\ Decode(UrlOf(path)) = Join(path)
EscapeOK == LET t == Join(path \o base) IN
            /\ Plain(Escape(t)) = t
            /\ Decode(Write(Partial(t))) = Decode(t)
            /\ Partial(Write(Partial(t))) = Partial(t)
=============================================================================
