------------------------------- MODULE XmlGen -------------------------------
(* Texts of whole pieces of XML, in every order (GSpec) or at random with    *)
(* mostly matching tags (RSpec).                                             *)
EXTENDS Xml, Json, TLC
VARIABLES n, out
Core == {<<60>>, <<60, 97>>, <<60, 47, 97, 62>>, <<62>>, <<47, 62>>, <<60, 47>>, <<47>>, <<97>>, <<32>>, <<61>>, <<39, 120, 39>>, <<34>>, <<60, 33, 45, 45>>, <<45, 45, 62>>, <<60, 63>>, <<63, 62>>, <<60, 33, 91, 67, 68, 65, 84, 65, 91>>, <<93, 93, 62>>, <<38, 108, 116, 59>>, <<116>>, <<60, 98, 62>>, <<60, 47, 98, 62>>, <<33>>}
Tokens == {<<60>>, <<62>>, <<47>>, <<60, 47>>, <<47, 62>>, <<60, 97>>, <<60, 98>>, <<60, 97, 98>>, <<60, 47, 97, 62>>, <<60, 47, 98, 62>>, <<60, 47, 97, 98, 62>>, <<60, 97, 62>>, <<60, 98, 62>>, <<60, 97, 47, 62>>, <<61>>, <<39, 39>>, <<34, 34>>, <<39, 120, 39>>, <<34, 121, 34>>, <<39>>, <<34>>, <<120>>, <<121, 61>>, <<120, 61, 39>>, <<120, 61, 34>>, <<97, 61, 34>>, <<99, 61, 39, 38, 108, 116, 59, 39>>, <<32>>, <<115>>, <<10>>, <<9>>, <<33>>, <<60, 33>>, <<60, 33, 45, 45>>, <<45, 45, 62>>, <<45, 45>>, <<45>>, <<63>>, <<60, 63>>, <<63, 62>>, <<60, 63, 120>>, <<60, 33, 91, 67, 68, 65, 84, 65, 91>>, <<93, 93, 62>>, <<91>>, <<93>>, <<38, 108, 116, 59>>, <<38, 97, 109, 112, 59>>, <<38, 113, 117, 111, 116, 59>>, <<38, 35, 54, 53, 59>>, <<38, 35, 120, 52, 49, 59>>, <<38, 35, 120, 101, 57, 59>>, <<38, 35, 56, 51, 54, 52, 59>>, <<38, 35, 120, 49, 70, 54, 48, 48, 59>>, <<38, 35>>, <<38, 35, 120, 59>>, <<38>>, <<59>>, <<60, 99, 58, 100>>, <<60, 101, 45, 49>>, <<60, 102, 95, 103>>, <<60, 104, 46, 105>>, <<60, 47, 101, 45, 49, 62>>, <<60, 47, 102, 95, 103, 62>>, <<195, 169>>, <<60, 33, 68, 79, 67, 84, 89, 80, 69>>}
More == {<<60, 97, 62>>, <<60, 98, 62>>, <<60, 99, 58, 100, 32, 120, 61, 34>>, <<34, 62>>, <<34, 47, 62>>, <<39, 32, 47, 62>>, <<116, 101, 120, 116>>, <<32, 10, 9>>}
CONSTANT Count
Add(t) == src' = src \o t /\ r' = FoldLeft(Step, r, t) /\ n' = n + 1 /\ UNCHANGED out
GInit == Init /\ n = 0 /\ out = FALSE
GNext == n < Count /\ \E t \in Core : Add(t) /\ (n' = Count => PrintT(<<"@GEN", ToJson(src')>>))
GSpec == GInit /\ [][GNext]_<<r, src, n, out>>
\* the close tag that fits
Fit == IF r.stack = <<>> THEN <<116>> ELSE <<LT, SL>> \o r.stack[Len(r.stack)] \o <<GT>>
Pick(k) == LET w == RandomElement(1..10)
           IN IF w <= 3 /\ r.mode = "text" THEN Fit
              ELSE IF w <= 3 /\ r.mode \in {"name", "tag", "an", "ane"} THEN <<GT>>
              ELSE IF w <= 6 THEN RandomElement(More)
              ELSE IF w <= 7 THEN RandomElement(Core) ELSE RandomElement(Tokens)
Close == CASE r.mode \in {"name", "tag", "an", "ane", "cl", "cle", "decl"} -> <<GT>>
           [] r.mode \in {"val", "piq", "declq"} -> <<r.q>>
           [] r.mode = "com" -> <<45, 45, 62>> [] r.mode = "pi" -> <<63, 62>> [] r.mode = "cdata" -> <<93, 93, 62>>
           [] r.mode = "text" -> Fit [] OTHER -> <<32>>
Emit == ~out /\ (n >= Count + 25 \/ (n >= Count /\ (r.mode = "err" \/ (r.mode = "text" /\ r.stack = <<>>) \/ RandomElement(1..(9 + 0 * n)) = 1)))
        /\ out' = TRUE /\ UNCHANGED <<r, src, n>> /\ PrintT(<<"@GEN", ToJson(src)>>)
RNext == Emit \/ (~out /\ n < Count /\ r.mode # "err" /\ \E t \in {Pick(n)} : Add(t)) \/ (~out /\ n < Count /\ r.mode = "err" /\ n' = Count /\ UNCHANGED <<r, src, out>>)
         \/ (~out /\ n >= Count /\ n < Count + 25 /\ r.mode # "err" /\ Add(Close))
RSpec == GInit /\ [][RNext]_<<r, src, n, out>>
GenOK == LET x == End(r) IN x.mode = "done" => LET y == ReadXml(WriteEvs(x.evs, <<>>)) IN y.mode = "done" /\ y.evs = x.evs
=============================================================================
