------------------------------ MODULE InlineMC ------------------------------
EXTENDS Inline
SmallPieces == {"a", " ", "<", "&", "\\", "*", "'''", "`", "[", "]", "[*", "[/", "mm", "\\u0041", "\\n", "."}
SomeVersions == {105, 106, 107}
=============================================================================
