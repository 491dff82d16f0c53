------------------------------ MODULE MarkupMC ------------------------------
EXTENDS Markup
SmallTokens == {"(a", "(b", ")a", ")b", ".a", "t", "!x"}
=============================================================================
