---------------------------- MODULE ValuesTrace -----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
W == INSTANCE Values WITH Regs <- {}, Readers <- {}, Tags <- {}, Kinds <- {}, Nums <- {}, Depth <- 0,
                          st <- 0, h <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st, phase
Init == s \in 1..Len(Trace) /\ k = 0 /\ st = W!Start /\ phase = "run"

\* what the driver records of a value
RECURSIVE Shape(_)
Shape(v) == <<v.k, v.tag, v.n, [i \in 1..Len(v.items) |-> Shape(v.items[i])]>>
Expected(n, o) == [res |-> n.res,
                   regs |-> [i \in 1..4 |-> Shape(n.st.reg[i])],
                   empty |-> [i \in 1..4 |-> IF W!EmptyVal(n.st.reg[i]) THEN 1 ELSE 0]]
Next == /\ phase = "run" /\ UNCHANGED s
        /\ IF k < Len(Trace[s].ops)
           THEN LET r == Trace[s].ops[k + 1]
                    n == W!Apply(st, r.o)
                    e == Expected(n, r.o)
                IN IF [res |-> r.res, regs |-> r.regs, empty |-> r.empty] = e
                   THEN k' = k + 1 /\ st' = n.st /\ phase' = phase
                   ELSE /\ phase' = "rejected" /\ UNCHANGED <<k, st>>
                        /\ PrintT(<<"@BAD", s, ToJson([step |-> k + 1, op |-> r.o, expected |-> e])>>)
           ELSE \* everything has been destroyed: nothing may be left allocated
                /\ UNCHANGED <<k, st>>
                /\ IF Trace[s].leaked = 0 THEN phase' = "done"
                   ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, "allocations left at the end">>)
Spec == Init /\ [][Next]_<<s, k, st, phase>>
=============================================================================
