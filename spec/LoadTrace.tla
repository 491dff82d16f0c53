----------------------------- MODULE LoadTrace -----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
W == INSTANCE Load WITH Bytes <- {}, MaxLen <- 0, Names <- {1, 2, 3}, Depth <- 0, st <- 0, h <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st, phase
Init == s \in 1..Len(Trace) /\ k = 0 /\ st = W!Start /\ phase = "run"
Ok(r, e) == IF r.o.op # "load" THEN TRUE
            ELSE /\ r.ok = e.ok
                 /\ (e.ok = 1 => /\ r.t = e.t
                                 /\ r.pos = [i \in 1..(Len(e.t) + 1) |-> W!Pos(e.t, i - 1)]
                                 /\ (r.o.v # 0 => r.v = r.o.v))
Next == /\ phase = "run" /\ UNCHANGED s
        /\ IF k < Len(Trace[s].ops)
           THEN LET r == Trace[s].ops[k + 1]
                    e == IF r.o.op = "load" THEN W!Result(st, r.o) ELSE [ok |-> 1, t |-> <<>>]
                IN IF Ok(r, e) THEN k' = k + 1 /\ st' = W!Apply(st, r.o) /\ phase' = phase
                   ELSE /\ phase' = "rejected" /\ UNCHANGED <<k, st>>
                        /\ PrintT(<<"@BAD", s, ToJson([step |-> k + 1, op |-> r.o, expected |-> e])>>)
           ELSE UNCHANGED <<k, st>> /\ phase' = "done"
Spec == Init /\ [][Next]_<<s, k, st, phase>>
=============================================================================
