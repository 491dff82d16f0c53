------------------------------ MODULE SnippetMC ------------------------------
EXTENDS Snippet
P == [b \in BOOLEAN |->
        IF b THEN {"#[a", "#]", "\n", " x", "#`", "#<-", "#->", "\"\"\"`", "\"\"\"", "#=", "\"\"\"<-", "->\"\"\""}
        ELSE {"//[a", "//]", "\n", " x", "//`", "//<-", "//->", "/*[a*/", "/*]*/", "/*<-", "->*/", "/*`", "*/", "//=", "/*="}]
=============================================================================
