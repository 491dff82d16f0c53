---------------------------- MODULE CleanupTrace ----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
W == INSTANCE Cleanup WITH Scopes <- {1, 2, 3}, MaxObjs <- 0, Depth <- 0, st <- 0, h <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st, phase
Init == s \in 1..Len(Trace) /\ k = 0 /\ st = W!Start /\ phase = "run"
New(a, b) == SubSeq(b.log, Len(a.log) + 1, Len(b.log))
Next == /\ phase = "run" /\ UNCHANGED s
        /\ IF k < Len(Trace[s].ops)
           THEN LET r == Trace[s].ops[k + 1]
                    n == W!Apply(st, r.o)
                    e == New(st, n)
                IN IF r.log = e THEN k' = k + 1 /\ st' = n /\ phase' = phase
                   ELSE /\ phase' = "rejected" /\ UNCHANGED <<k, st>>
                        /\ PrintT(<<"@BAD", s, ToJson([step |-> k + 1, op |-> r.o, expected |-> e])>>)
           ELSE /\ UNCHANGED <<k, st>>
                /\ IF Trace[s].leaked = 0 THEN phase' = "done"
                   ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, "objects left at the end">>)
Spec == Init /\ [][Next]_<<s, k, st, phase>>
=============================================================================
