----------------------------- MODULE TreeTrace -----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
W == INSTANCE Tree WITH MaxNodes <- 99, Trees <- {1, 2, 3}, Depth <- 0, st <- 0, h <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st, phase
Init == s \in 1..Len(Trace) /\ k = 0 /\ st = W!Start /\ phase = "run"
RECURSIVE Shape(_, _)
Shape(t, f) == [i \in 1..Len(f) |-> <<f[i], Shape(t, t.kids[f[i]])>>]
Expected(t) == [b |-> Shape(t, t.b), regs |-> [i \in 1..3 |-> Shape(t, t.reg[i])], cur |-> t.cur, par |-> t.par]
Next == /\ phase = "run" /\ UNCHANGED s
        /\ IF k < Len(Trace[s].ops)
           THEN LET r == Trace[s].ops[k + 1]
                    n == W!Apply(st, r.o)
                    e == Expected(n)
                    \* the same forwards and backwards
                    got(f) == [b |-> f.b, regs |-> f.regs, cur |-> r.cur, par |-> r.par]
                IN IF r.links = 1 /\ got(r.fwd) = e /\ got(r.bwd) = e
                   THEN k' = k + 1 /\ st' = n /\ phase' = phase
                   ELSE /\ phase' = "rejected" /\ UNCHANGED <<k, st>>
                        /\ PrintT(<<"@BAD", s, ToJson([step |-> k + 1, op |-> r.o, expected |-> e])>>)
           ELSE /\ UNCHANGED <<k, st>>
                /\ IF Trace[s].leaked = 0 THEN phase' = "done"
                   ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, "nodes left at the end">>)
Spec == Init /\ [][Next]_<<s, k, st, phase>>
=============================================================================
