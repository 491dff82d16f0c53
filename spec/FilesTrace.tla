----------------------------- MODULE FilesTrace -----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
W == INSTANCE Files WITH MaxLen <- 0, MaxFiles <- 0, Depth <- 0, Alphabet <- {}, st <- 0, h <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st, phase
Init == s \in 1..Len(Trace) /\ k = 0 /\ st = W!Start(Trace[s].t) /\ phase = "run"
Agree(p, e) == CASE e.d = 0 -> p = <<e.l, e.c>> [] e.d = 1 -> p[1] = e.l [] OTHER -> TRUE
\* a released file: its text and the position of every offset up to its end
Ok(n, r) == LET f == n.f[Len(n.f)] IN
    r.t = f.t /\ Len(r.pos) = Len(f.t) + 1 /\ \A i \in 0..Len(f.t) : Agree(r.pos[i + 1], W!PosAt(n, Len(n.f), i, 0))
Next == /\ phase = "run" /\ UNCHANGED s
        /\ IF k < Len(Trace[s].ops)
           THEN LET r == Trace[s].ops[k + 1]
                    n == W!Apply(st, r.o)
                IN IF r.o.op # "release" \/ Ok(n, r) THEN k' = k + 1 /\ st' = n /\ phase' = phase
                   ELSE /\ phase' = "rejected" /\ UNCHANGED <<k, st>>
                        /\ PrintT(<<"@BAD", s, ToJson([step |-> k + 1, op |-> r.o, text |-> n.f[Len(n.f)].t,
                                   expected |-> [i \in 1..(Len(n.f[Len(n.f)].t) + 1) |-> W!PosAt(n, Len(n.f), i - 1, 0)]])>>)
           ELSE UNCHANGED <<k, st>> /\ phase' = "done"
Spec == Init /\ [][Next]_<<s, k, st, phase>>
=============================================================================
