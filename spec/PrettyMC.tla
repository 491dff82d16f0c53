------------------------------ MODULE PrettyMC ------------------------------
EXTENDS Pretty
A == {[t |-> "s"], [t |-> "w", x |-> "w"], [t |-> "b+", x |-> "B"], [t |-> "f+", x |-> "F"], [t |-> "-", x |-> ""],
      [t |-> "b", x |-> "BE"], [t |-> "f", x |-> "FE"], [t |-> "c", x |-> "C"], [t |-> "p", y |-> <<32, 10, 13, 97, 32, 13>>], [t |-> "e", x |-> "E"]}
=============================================================================
