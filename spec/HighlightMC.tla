----------------------------- MODULE HighlightMC -----------------------------
EXTENDS Highlight
P == {"if", "x", "1", "\"", "//", "/*", "*/", "\n", " ", ";", "``", "mac", "#", "/*<", ">*/", "e", "'", "\\"}
=============================================================================
