------------------------------ MODULE CalloutsMC ------------------------------
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANT Most
VARIABLES m, v, defs
G == INSTANCE CalloutsGen WITH Most <- 0, Count <- 0, n <- 0
C == INSTANCE Callouts WITH Docs <- UNION {[1..l -> G!Alphabet] : l \in 1..Most}, Defs <- {G!DefsA}
Spec == C!Spec
Paired == C!Paired
Ordered == C!Ordered
NotEmpty == C!NotEmpty
Settled == C!Settled
Depth == C!Depth
=============================================================================
