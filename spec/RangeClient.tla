---------------------------- MODULE RangeClient ----------------------------
(* A client that fetches one resource of Len blocks by ranges: pieces one    *)
(* after another, pieces from behind, the rest, and odd requests in between. *)
(* Every behaviour is replayed with bytes for blocks (harness: plans2.c18).  *)
EXTENDS Range, Json
CONSTANTS MaxLen, MaxSteps, Emit
VARIABLES len, lo, hi, got, hist
vars == <<len, lo, hi, got, hist>>
\* lo: everything before is fetched, hi: everything from here on is fetched
Kinds == {"next", "rest", "last", "over", "bad", "past", "back", "zero", "multi", "plain"}
Ask(kind, k) ==
  CASE kind = "next" -> [single |-> TRUE, first |-> lo, last |-> lo + k - 1]
    [] kind = "rest" -> [single |-> TRUE, first |-> lo, last |-> -1]
    [] kind = "last" -> [single |-> TRUE, first |-> -1, last |-> len - hi + k]
    [] kind = "over" -> [single |-> TRUE, first |-> lo, last |-> len + k]
    [] kind = "past" -> [single |-> TRUE, first |-> len + k - 1, last |-> len + k]
    [] kind = "back" -> [single |-> TRUE, first |-> lo + k, last |-> lo + k - 1]
    [] kind = "zero" -> [single |-> TRUE, first |-> -1, last |-> 0]
    [] OTHER -> [single |-> FALSE, first |-> 0, last |-> 0]
Init == len \in 0..MaxLen /\ lo = 0 /\ hi = len /\ got = {} /\ hist = <<>>
Fetch == \E kind \in Kinds, k \in 1..3 :
  /\ Len(hist) < MaxSteps
  /\ LET r == Ask(kind, k)
         x == Honour(len, r)
         y == IF x = <<>> THEN {} ELSE x[1]..x[2]
     IN /\ hist' = Append(hist, [kind |-> kind, k |-> k, r |-> r, x |-> x])
        /\ got' = got \cup y
        /\ lo' = (IF x # <<>> /\ x[1] <= lo THEN Max2(lo, x[2] + 1) ELSE lo)
        /\ hi' = (IF x # <<>> /\ x[2] >= hi - 1 THEN Min2(hi, x[1]) ELSE hi)
  /\ len' = len
Show == /\ Emit /\ Len(hist) = MaxSteps /\ PrintT("GEN " \o ToJson([len |-> len, h |-> hist]))
        /\ hist' = Append(hist, [kind |-> "end", k |-> 0, r |-> Ask("plain", 0), x |-> <<>>]) /\ UNCHANGED <<len, lo, hi, got>>
Next == Fetch \/ Show
Spec == Init /\ [][Next]_vars
View == <<len, lo, hi, got, IF hist = <<>> THEN 0 ELSE hist[Len(hist)]>>
----------------------------------------------------------------------------
Last == hist[Len(hist)]
InBounds == hist # <<>> => (Last.x # <<>> => 0 <= Last.x[1] /\ Last.x[1] <= Last.x[2] /\ Last.x[2] < len)
\* honoured exactly when some existing byte is asked for
Honoured == hist # <<>> =>
  LET r == Last.r
      set == IF ~r.single THEN {} ELSE IF r.first = -1 THEN {i \in 0..(len - 1) : i >= len - r.last}
             ELSE {i \in 0..(len - 1) : i >= r.first /\ (r.last = -1 \/ i <= r.last)}
  IN IF set = {} THEN Last.x = <<>> ELSE Last.x # <<>> /\ Last.x[1]..Last.x[2] = set
\* contiguous pieces from the front and from behind reproduce the resource without gap
Front == 0..(lo - 1) \subseteq got
Back == hi..(len - 1) \subseteq got
Complete == lo >= hi => got = 0..(len - 1)
Sane == lo <= len /\ 0 <= hi
=============================================================================
