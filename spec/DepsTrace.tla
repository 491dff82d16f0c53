------------------------------ MODULE DepsTrace ------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
W == INSTANCE Deps WITH Paths <- {}, Depth <- 0, st <- 0, h <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st, phase
Init == s \in 1..Len(Trace) /\ k = 0 /\ st = W!Start /\ phase = "run"
Next == /\ phase = "run" /\ UNCHANGED s
        /\ IF k < Len(Trace[s].ops)
           THEN LET r == Trace[s].ops[k + 1]
                    n == W!Apply(st, r.o)
                    e == W!Obs(n, r.o)
                IN IF r.r = e THEN k' = k + 1 /\ st' = n /\ phase' = phase
                   ELSE /\ phase' = "rejected" /\ UNCHANGED <<k, st>>
                        /\ PrintT(<<"@BAD", s, ToJson([step |-> k + 1, op |-> r.o, expected |-> e])>>)
           ELSE UNCHANGED <<k, st>> /\ phase' = "done"
Spec == Init /\ [][Next]_<<s, k, st, phase>>
=============================================================================
