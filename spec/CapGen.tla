------------------------------- MODULE CapGen ------------------------------
(* Contents and caption files for the caption inserter.                     *)
EXTENDS Base, Json
VARIABLES ph, caps, x
vars == <<ph, caps, x>>
Pick(S) == RandomElement(IF ph >= 0 THEN S ELSE {})
Cap(i) == [seg |-> Pick(-1..7), smp |-> Pick(0..5), delta |-> Pick({-1, 0, 0, 0, 1, 7}), len |-> Pick({0, 1, 1, 2, 13, 13, 30, 31, 32, 40, 62, 63, 94}),
           same |-> Pick(1..5), sep |-> Pick(1..3)]
Init == ph = 0 /\ caps = <<>> /\ x = <<>>
Next ==
  \/ /\ ph = 0
     /\ \E y \in {[D |-> Pick({1, 2, 4, 6, 10}), n |-> Pick(1..6), first |-> Pick({0, 1, 2, 7, 100}), ts |-> Pick({10, 1000, 12800, 24000, 30000, 90000, 600000, 29970}),
                   nreps |-> IF Pick(1..4) = 1 THEN 2 ELSE 1, lay |-> Pick({"plain", "wide", "defs", "trexdef", "sidx0", "sidx1", "extra", "runs", "negcto", "runsdef", "noff", "nostypx", "fixed", "alldef"}),
                   cum |-> [k \in 1..6 |-> IF Pick(1..2) = 1 THEN 0 ELSE Pick({-900, -500, -20, -1, 1, 3, 20, 500, 900})], nsamp |-> Pick(1..5), t0 |-> IF Pick(1..3) = 1 THEN Pick(1..5000) ELSE 0,
                   pre |-> Pick(0..5), post |-> Pick(0..2), field |-> Pick(1..3), ncaps |-> Pick({0, 1, 2, 3, 4, 6, 8, 12}), audio |-> Pick(1..2), verb |-> Pick(1..3), flaw |-> Pick(1..12),
                   order |-> Pick(1..3), nostart |-> Pick(1..3)]} : x' = y
     /\ ph' = 1 /\ caps' = <<>>
  \/ /\ ph = 1 /\ Len(caps) < x.ncaps
     /\ \E c \in {Cap(Len(caps))} : caps' = Append(caps, c)
     /\ UNCHANGED <<ph, x>>
  \/ /\ ph = 1 /\ Len(caps) = x.ncaps
     /\ PrintT("GEN " \o ToJson([x EXCEPT !.ncaps = 0] @@ [caps |-> caps]))
     /\ ph' = 2 /\ UNCHANGED <<caps, x>>
Spec == Init /\ [][Next]_vars
=============================================================================
