----------------------------- MODULE SubgenGen -----------------------------
(* Calls of the subtitle generator.                                         *)
EXTENDS Base, Json
VARIABLES ph
Pick(S) == RandomElement(IF ph >= 0 THEN S ELSE {})
Init == ph = 0
Next == /\ ph' = ph + 1
        /\ \E y \in {[live |-> Pick(1..3), n |-> Pick({0, 1, 2, 3, 4, 5, 7, 10, 12, 40}), D |-> Pick({1, 2, 4, 6, 10}),
                      d |-> Pick({<<0, 1>>, <<0, 40>>, <<0, 999>>, <<1, 0>>, <<1, 1>>, <<1, 920>>, <<2, 2>>, <<3, 3>>, <<5, 760>>, <<6, 6>>, <<59, 999>>, <<61, 1>>,
                                 <<3600, 0>>, <<86399, 500>>, <<700000, 123>>}),
                      parts |-> Pick(1..9), off |-> Pick({0, 0, 1, 7, 333}), rdef |-> Pick(1..4), lang |-> Pick({"", "eng", "swe", "und", "zza", "aaz"}),
                      track |-> Pick({NONE, 1, 2, 3, 5, 255, 256, 65536, 2147483646}), fmt |-> Pick(1..5), exists |-> Pick(1..2), how |-> Pick(1..2)]} : PrintT("GEN " \o ToJson(y))
Spec == Init /\ [][Next]_ph
=============================================================================
