------------------------------ MODULE DocInfoMC ------------------------------
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANT Most
VARIABLES d, m
G == INSTANCE DocInfoGen WITH Count <- 0, n <- 0
D == INSTANCE DocInfo WITH Docs <- G!MCDocs
Spec == D!Spec
Kept == D!Kept
Unordered == D!Unordered
Nothing == D!Nothing
=============================================================================
