------------------------------ MODULE PrettyGen ------------------------------
EXTENDS Pretty, Json
VARIABLE out
A == {[t |-> "s"], [t |-> "w", x |-> "word"], [t |-> "b+", x |-> "para"], [t |-> "f+", x |-> "emphasis role=\"a  b\""], [t |-> "-", x |-> ""],
      [t |-> "b", x |-> "xi:include href=\"x y\""], [t |-> "f", x |-> "sbr"], [t |-> "c", x |-> "note"],
      [t |-> "p", y |-> <<32, 10, 13, 97, 32, 32, 10, 32, 60, 98, 62, 13>>], [t |-> "e", x |-> "{{ x  y <z> }}"]}
Closed(hh, s) == hh \o [k \in 1..Len(s.stack) |-> [t |-> "-", x |-> ""]]
GInit == Init /\ out = FALSE
GNext == Next /\ UNCHANGED out /\ PrintT(<<"@GEN", ToJson(Closed(h', st'))>>)
GSpec == GInit /\ [][GNext]_<<st, h, out>>
\* longer documents with more of everything
Words == <<"a", "bb", "word", "&lt;x&gt;", "it's", "longerword", "averyverylongwordindeed,whichhasnospace", "-", "1.2.3", "caf\\u00e9">>
Blocks == <<"para", "section id=\"s.one\"", "listitem", "orderedlist", "entry", "table frame=\"all\" id=\"t  x\"", "note", "bookinfo", "simpara">>
Flows == <<"emphasis", "emphasis role=\"bold\"", "title", "link linkend=\"x.y.z\"", "phrase role=\"a   b   c   d   e   f   g   h\"", "ulink url=\"http://x/?a=b&amp;c=d e\"", "code">>
EBlocks == <<"xi:include href=\"x.xml\"", "row", "xi:include href=\"a  b\"">>
EFlows == <<"sbr", "anchor id=\"q\"", "imagedata fileref=\"a b.png\" width=\"10\"">>
Codes == <<<<>>, <<97>>, <<LF>>, <<32, 32, 97, 32, LF, LF, 32, 32, LF, 98, 60, 105, 62, 34>>, <<97, CR, LF, 98, CR, 99, 32, CR>>, <<LF, CR, 32, LF, 97, 9, LF>>>>
Escs == <<"{{}}", "{{ <a>  <b/>  </a> }}", "{{some more text to go past the end of the line, at last}}", "{{\n}}">>
R(n) == RandomElement(1..n)
\* listings of any characters
Chars == <<9, 9, LF, LF, CR, 32, 32, 97, 98, 60, 62, 34, 38, 11>>
Code(d) == LET n == R(16) IN [i \in 1..n |-> Chars[R(Len(Chars))]]
Pick(d) == LET k == R(20) IN
    CASE k <= 5 -> [t |-> "s"]
      [] k <= 9 -> [t |-> "w", x |-> Words[R(Len(Words))]]
      [] k <= 11 -> [t |-> "b+", x |-> Blocks[R(Len(Blocks))]]
      [] k <= 13 -> [t |-> "f+", x |-> Flows[R(Len(Flows))]]
      [] k <= 16 -> [t |-> "-", x |-> ""]
      [] k = 17 -> IF R(2) = 1 THEN [t |-> "b", x |-> EBlocks[R(Len(EBlocks))]] ELSE [t |-> "f", x |-> EFlows[R(Len(EFlows))]]
      [] k = 18 -> IF R(3) = 1 THEN [t |-> "c", x |-> "some note"] ELSE [t |-> "s"]
      [] k = 19 -> [t |-> "p", y |-> IF R(3) = 1 THEN Codes[R(Len(Codes))] ELSE Code(d)]
      [] OTHER -> [t |-> "e", x |-> Escs[R(Len(Escs))]]
RNext == \/ Len(h) < Depth /\ ~st.refused /\ (\E i \in {Pick(Len(h))} : IF Fits(i) THEN Do(i) ELSE UNCHANGED <<st, h>>) /\ UNCHANGED out
         \/ (Len(h) = Depth \/ st.refused) /\ ~out /\ out' = TRUE /\ UNCHANGED <<st, h>> /\ PrintT(<<"@GEN", ToJson(Closed(h, st))>>)
RSpec == GInit /\ [][RNext]_<<st, h, out>>
=============================================================================
