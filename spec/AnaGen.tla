------------------------------- MODULE AnaGen ------------------------------
(* Stored contents to analyze: abstract choices, made concrete by the       *)
(* harness. Up to one flaw each.                                            *)
EXTENDS Base, Json
VARIABLES ph, sets, x
vars == <<ph, sets, x>>
Pick(S) == RandomElement(IF ph >= 0 THEN S ELSE {})
Cts == <<"video", "audio", "subtitles">>
Shape(i) == [ct |-> Cts[i], nreps |-> IF Pick(1..2) = 1 THEN Pick(2..3) ELSE 1, ts |-> Pick({10, 1000, 12800, 24000, 44100, 48000, 90000, 600000}),
  \* cumulative deviation from the grid in thousandths of a tenth of a second
  cum |-> [k \in 1..9 |-> IF Pick(1..2) = 1 THEN 0 ELSE Pick({-999, -990, -500, -20, -1, 1, 3, 20, 500, 990, 999})],
  even |-> Pick(1..3), closed |-> Pick(1..3), gap |-> IF Pick(1..5) = 1 THEN Pick(2..6) ELSE 0,
  t0 |-> IF Pick(1..3) = 1 THEN Pick(1..5) ELSE 0, lay |-> Pick({"plain", "wide", "fixed", "sidx1", "extra", "runs", "cenc", "defs", "trexdef", "nostypx", "alldef"}),
  more |-> IF Pick(1..2) = 1 THEN Pick(1..3) ELSE 0, whom |-> Pick(0..2), initver |-> Pick(0..1), initextra |-> Pick(1..4)]
Init == ph = 0 /\ sets = <<>> /\ x = <<>>
Flaws == {"", "hole", "first", "timescale", "drift", "twice", "empty", "stray", "nostart", "attrscale"}
Next ==
  \/ /\ ph = 0
     /\ \E S \in {Pick((SUBSET {1, 2, 3}) \ {{}})} :
          sets' = [i \in 1..Cardinality(S) |-> CHOOSE k \in S : Cardinality({j \in S : j < k}) = i - 1]
     /\ ph' = 1 /\ x' = <<>>
  \/ /\ ph \in 1..3
     /\ IF ph <= Len(sets) THEN \E r \in {Shape(sets[ph])} : x' = Append(x, r) ELSE x' = x
     /\ ph' = ph + 1 /\ UNCHANGED sets
  \/ /\ ph = 4
     /\ \E y \in {[D |-> Pick({1, 2, 4, 6, 10}), n |-> Pick(1..9), first |-> Pick({0, 1, 2, 7, 100, 60000}), flaw |-> IF Pick(1..2) = 1 THEN "" ELSE Pick(Flaws),
                   at |-> Pick(1..9), set |-> Pick(1..3), rep |-> Pick(0..2), sets |-> x]} : PrintT("GEN " \o ToJson(y))
     /\ ph' = 0 /\ UNCHANGED <<sets, x>>
Spec == Init /\ [][Next]_vars
=============================================================================
