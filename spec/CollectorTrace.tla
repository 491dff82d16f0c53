--------------------------- MODULE CollectorTrace ---------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
W == INSTANCE Collector WITH MaxWrites <- 0, MaxDepth <- 0, Depth <- 0, st <- 0, h <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st, phase
Init == s \in 1..Len(Trace) /\ k = 0 /\ st = W!Start /\ phase = "run"
Next == /\ phase = "run" /\ UNCHANGED s
        /\ IF k < Len(Trace[s].ops)
           THEN LET r == Trace[s].ops[k + 1]
                    n == W!Apply(st, r.o)
                    e == W!Obs(n, r.o)
                IN IF r.r = e THEN k' = k + 1 /\ st' = n /\ phase' = phase
                   ELSE /\ phase' = "rejected" /\ UNCHANGED <<k, st>>
                        /\ PrintT(<<"@BAD", s, ToJson([step |-> k + 1, op |-> r.o, expected |-> e])>>)
           ELSE /\ UNCHANGED <<k, st>>
                /\ IF Trace[s].bottom = <<st.c[1][1], st.c[2][1]>> /\ Trace[s].regs = st.reg THEN phase' = "done"
                   ELSE phase' = "rejected" /\ PrintT(<<"@BAD", s, ToJson([atend |-> <<st.c[1][1], st.c[2][1]>>, regs |-> st.reg])>>)
Spec == Init /\ [][Next]_<<s, k, st, phase>>
=============================================================================
