------------------------------- MODULE Values -------------------------------
(* Value lists: immutable values, a builder with saved partial lists, and    *)
(* consumers that read a list.  A value is a pure mathematical object here;  *)
(* the code shares, clones and reference-counts linked nodes.                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

\* ---- values: k is "nil" | "int" | "enc" | "qbk" | "encqbk" | "list"
V(k, tag, n, items) == [k |-> k, tag |-> tag, n |-> n, items |-> items]
Nil == V("nil", 0, 0, <<>>)

EmptyVal(v) == CASE v.k = "nil" -> TRUE
                 [] v.k = "list" -> v.items = <<>>
                 [] v.k \in {"enc", "encqbk"} -> v.n = 0
                 [] v.k = "qbk" -> v.n = 0
                 [] OTHER -> FALSE

\* Equality ignores tags; only values of the same kind are compared here.
RECURSIVE SameVal(_, _)
SameVal(a, b) ==
    /\ a.k = b.k
    /\ IF a.k = "list" THEN Len(a.items) = Len(b.items) /\ \A i \in 1..Len(a.items) : SameVal(a.items[i], b.items[i])
       ELSE a.k \in {"nil", "encqbk"} \/ a.n = b.n   \* encqbk: its source text, the same for all here

\* ---- the stable order by tag
Sorted(s) == LET tags == {s[i].tag : i \in DOMAIN s}
             IN FoldLeft(LAMBDA acc, t : acc \o SelectSeq(s, LAMBDA v : v.tag = t),
                         <<>>, SetToSortSeq(tags, LAMBDA x, y : x < y))

\* ---- state: a stack of partial lists (top last), registers, consumers
Frame(tag) == [tag |-> tag, items |-> <<>>]
NoConsumer == [list |-> <<>>, pos |-> 0]
Start == [frames |-> <<Frame(0)>>, reg |-> [i \in 1..4 |-> Nil], con |-> [i \in 1..2 |-> NoConsumer]]

Top(st) == st.frames[Len(st.frames)]
PutTop(st, f) == [st EXCEPT !.frames[Len(st.frames)] = f]
AddItem(st, v) == PutTop(st, [Top(st) EXCEPT !.items = Append(@, v)])
Pop(st) == [st EXCEPT !.frames = Front(@)]

R(st, res) == [st |-> st, res |-> res]
Rest(c) == c.pos > 0 /\ c.pos <= Len(c.list)
Cur(c) == c.list[c.pos]
Adv(st, i) == [st EXCEPT !.con[i].pos = @ + 1]
Desc(v) == [k |-> v.k, tag |-> v.tag, n |-> v.n]

\* res: what the call itself reports (a sequence of strings/ints)
Apply(st, o) ==
    CASE o.op = "make"    -> R([st EXCEPT !.reg[o.i] = V(o.k, o.tag, IF o.k = "nil" THEN 0 ELSE o.n, <<>>)], "")
      [] o.op = "insert"  -> R(AddItem(st, st.reg[o.i]), "")
      [] o.op = "extend"  -> R(PutTop(st, [Top(st) EXCEPT !.items = @ \o st.reg[o.i].items]), "")
      [] o.op = "start"   -> R([st EXCEPT !.frames = Append(@, Frame(o.tag))], "")
      [] o.op = "finish"  -> R(AddItem(Pop(st), V("list", Top(st).tag, 0, Top(st).items)), "")
      [] o.op = "clear"   -> R(Pop(st), "")
      [] o.op = "save"    -> R([st EXCEPT !.frames = Append(@, Frame(0))], "")
      [] o.op = "restore" -> R(Pop(st), "")
      [] o.op = "sort"    -> R(PutTop(st, [Top(st) EXCEPT !.items = Sorted(@)]), "")
      [] o.op = "release" -> R(PutTop([st EXCEPT !.reg[o.i] = V("list", Top(st).tag, 0, Top(st).items)],
                                      [Top(st) EXCEPT !.items = <<>>]), "")
      [] o.op = "empty"   -> R(st, IF Top(st).items = <<>> THEN "yes" ELSE "no")
      [] o.op = "assign"  -> R([st EXCEPT !.reg[o.i] = st.reg[o.j]], "")
      [] o.op = "elem"    -> R([st EXCEPT !.reg[o.i] = IF st.reg[o.j].items = <<>> THEN st.reg[o.i] ELSE st.reg[o.j].items[1]], "")
      [] o.op = "last"    -> R([st EXCEPT !.reg[o.i] = IF st.reg[o.j].items = <<>> THEN st.reg[o.i] ELSE st.reg[o.j].items[Len(st.reg[o.j].items)]], "")
      [] o.op = "eq"      -> R(st, IF SameVal(st.reg[o.i], st.reg[o.j]) THEN "yes" ELSE "no")
      [] o.op = "open"    -> R([st EXCEPT !.con[o.c] = [list |-> st.reg[o.i].items, pos |-> 1]], "")
      [] o.op = "check"   -> R(st, IF Rest(st.con[o.c]) THEN "yes" ELSE "no")
      [] o.op = "checkt"  -> R(st, IF Rest(st.con[o.c]) /\ Cur(st.con[o.c]).tag = o.tag THEN "yes" ELSE "no")
      [] o.op = "consume" -> IF Rest(st.con[o.c])
                             THEN R([Adv(st, o.c) EXCEPT !.reg[o.i] = Cur(st.con[o.c])], "ok")
                             ELSE R(st, "error")
      [] o.op = "consumet" -> IF Rest(st.con[o.c]) /\ Cur(st.con[o.c]).tag = o.tag
                             THEN R([Adv(st, o.c) EXCEPT !.reg[o.i] = Cur(st.con[o.c])], "ok")
                             ELSE R(st, "error")
      [] o.op = "opt"     -> IF Rest(st.con[o.c])
                             THEN R([Adv(st, o.c) EXCEPT !.reg[o.i] = Cur(st.con[o.c])], "ok")
                             ELSE R([st EXCEPT !.reg[o.i] = Nil], "ok")
      [] o.op = "optt"    -> IF Rest(st.con[o.c]) /\ Cur(st.con[o.c]).tag = o.tag
                             THEN R([Adv(st, o.c) EXCEPT !.reg[o.i] = Cur(st.con[o.c])], "ok")
                             ELSE R([st EXCEPT !.reg[o.i] = Nil], "ok")
      [] o.op = "finishc" -> R(st, IF Rest(st.con[o.c]) THEN "error" ELSE "ok")

IsList(v) == v.k = "list"
\* which calls a user may make now (the documented preconditions)
Enabled(st, o) ==
    CASE o.op \in {"finish", "clear", "restore"} -> Len(st.frames) > 1
      [] o.op \in {"start", "save"} -> Len(st.frames) < 4
      [] o.op \in {"insert", "finish"} -> Len(Top(st).items) < 9
      [] o.op = "extend" -> IsList(st.reg[o.i]) /\ Len(Top(st).items) < 9
      [] o.op = "open" -> IsList(st.reg[o.i])
      [] o.op \in {"elem", "last"} -> IsList(st.reg[o.j])
      [] o.op = "eq" -> st.reg[o.i].k = st.reg[o.j].k
      [] o.op \in {"check", "checkt", "consume", "consumet", "opt", "optt", "finishc"} -> st.con[o.c].pos > 0
      [] OTHER -> TRUE

RECURSIVE Size(_)
Size(v) == IF v.k = "list" THEN FoldLeft(LAMBDA a, x : a + Size(x), 1, v.items) ELSE 1

\* ---- the state machine
CONSTANTS Regs, Readers, Tags, Kinds, Nums, Depth
VARIABLES st, h
Op(op) == [op |-> op]
Ops == [op : {"finish", "clear", "save", "restore", "sort", "empty"}]
       \cup [op : {"start"}, tag : Tags]
       \cup [op : {"make"}, i : Regs, k : Kinds, tag : Tags, n : Nums]
       \cup [op : {"insert", "release", "extend"}, i : Regs]
       \cup [op : {"assign", "elem", "last", "eq"}, i : Regs, j : Regs]
       \cup [op : {"open"}, c : Readers, i : Regs]
       \cup [op : {"check", "finishc"}, c : Readers]
       \cup [op : {"checkt"}, c : Readers, tag : Tags]
       \cup [op : {"consume", "opt"}, c : Readers, i : Regs]
       \cup [op : {"consumet", "optt"}, c : Readers, tag : Tags, i : Regs]
Init == st = Start /\ h = <<>>
Do(o) == Enabled(st, o) /\ st' = Apply(st, o).st /\ h' = Append(h, o)
Next == Len(h) < Depth /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_<<st, h>>
View == <<st, Len(h)>>

\* ---- properties of the design
\* a sort keeps the multiset and the relative order of equal tags
SortOK == LET s == Top(st).items  r == Sorted(s)
          IN /\ Len(r) = Len(s)
             /\ \A i \in 1..Len(r) - 1 : r[i].tag <= r[i + 1].tag
             /\ \A t \in {s[i].tag : i \in DOMAIN s} : SelectSeq(r, LAMBDA v : v.tag = t) = SelectSeq(s, LAMBDA v : v.tag = t)
             /\ Sorted(r) = r
FramesOK == Len(st.frames) >= 1 /\ st.frames[1].tag = 0
\* no operation but an assignment to a register changes it
RegsStable == [][\A i \in 1..4 : st.reg[i] # st'.reg[i] =>
                    LET o == h'[Len(h')] IN "i" \in DOMAIN o /\ o.i = i]_<<st, h>>
\* building never touches what a consumer is reading
ConsStable == [][\A c \in 1..2 : st.con[c].list # st'.con[c].list => h'[Len(h')].op = "open"]_<<st, h>>
=============================================================================
