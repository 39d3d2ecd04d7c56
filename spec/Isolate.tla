------------------------------ MODULE Isolate ------------------------------
(* Requests in flight on one server process. A request captures the clock    *)
(* and the stored content when it starts; a chunked delivery goes on for     *)
(* several steps while other requests start, finish, fail or are aborted and *)
(* while the content is changed. The server keeps one piece of state between *)
(* requests: the default header dictionary of replies without own headers    *)
(* (module mod_dashlivesim, start_reply), modelled here as it is. A reply is *)
(* a function of the request, the clock and the content captured at its      *)
(* start: nothing of what happens in between shows.                          *)
(* The behaviours are replayed by the harness (plans3.c19).                  *)
EXTENDS Base, Json
CONSTANTS Ticks, Reqs, Kinds, MaxFlights, MaxHist, MaxVer, Emit
VARIABLES clock, ver, fl, shared, hist, n
vars == <<clock, ver, fl, shared, hist, n>>
\* flights: id -> [key, kind, t, ver, left, out]; out: what has been sent
Chunked == {"chunk"}
OwnHeaders == {"media", "chunk", "manifest", "fail"}   \* replies with a dictionary of their own
NoHdr == [ctype |-> "", len |-> -1]
Expected(key, kind, t, v) == [key |-> key, t |-> t, ver |-> v, ctype |-> IF kind \in {"refuse", "fail"} THEN "text" ELSE kind, len |-> IF kind \in Chunked THEN -1 ELSE 10 * key + v]
\* start_reply: the entries of a reply's dictionary
Fill(h, kind, len) == [ctype |-> IF kind \in OwnHeaders THEN (IF kind = "fail" THEN "text" ELSE kind) ELSE IF h.ctype = "" THEN "text" ELSE h.ctype,
                       len |-> IF len >= 0 THEN len ELSE h.len]
Init == clock = 0 /\ ver = 0 /\ fl = <<>> /\ shared = NoHdr /\ hist = <<>> /\ n = 0
Start == \E key \in Reqs, kind \in Kinds :
  /\ Len(hist) < MaxHist
  /\ Cardinality({i \in DOMAIN fl : fl[i].left > 0}) < MaxFlights
  /\ LET len == IF kind \in Chunked THEN -1 ELSE 10 * key + ver
         h == Fill(IF kind \in OwnHeaders THEN NoHdr ELSE shared, kind, len)
     IN /\ fl' = Append(fl, [key |-> key, kind |-> kind, t |-> clock, ver |-> ver, left |-> IF kind \in Chunked THEN 2 ELSE 0,
                             out |-> [key |-> key, t |-> clock, ver |-> ver, ctype |-> h.ctype, len |-> h.len]])
        /\ shared' = (IF kind \in OwnHeaders THEN shared ELSE h)
  /\ n' = n + 1
  /\ hist' = Append(hist, [a |-> "start", i |-> n', key |-> key, kind |-> kind])
  /\ UNCHANGED <<clock, ver>>
Step == \E i \in DOMAIN fl : fl[i].left > 0 /\ Len(hist) < MaxHist /\ fl' = [fl EXCEPT ![i].left = @ - 1]
        /\ hist' = Append(hist, [a |-> "step", i |-> i, key |-> 0, kind |-> ""]) /\ UNCHANGED <<clock, ver, shared, n>>
Abort == \E i \in DOMAIN fl : fl[i].left > 0 /\ Len(hist) < MaxHist /\ fl' = [fl EXCEPT ![i].left = 0]
        /\ hist' = Append(hist, [a |-> "abort", i |-> i, key |-> 0, kind |-> ""]) /\ UNCHANGED <<clock, ver, shared, n>>
Change == \E k \in 1..6 : ver < MaxVer /\ Len(hist) < MaxHist /\ ver' = ver + 1
        /\ hist' = Append(hist, [a |-> "change", i |-> 0, key |-> k, kind |-> ""]) /\ UNCHANGED <<clock, fl, shared, n>>
Tick == \E d \in Ticks : Len(hist) < MaxHist /\ clock' = clock + d
        /\ hist' = Append(hist, [a |-> "tick", i |-> 0, key |-> d, kind |-> ""]) /\ UNCHANGED <<ver, fl, shared, n>>
Show == /\ Emit /\ Len(hist) = MaxHist /\ PrintT("GEN " \o ToJson(hist)) /\ hist' = Append(hist, [a |-> "end", i |-> 0, key |-> 0, kind |-> ""])
        /\ UNCHANGED <<clock, ver, fl, shared, n>>
Next == Start \/ Step \/ Abort \/ Change \/ Tick \/ Show
\* for generation: mostly requests
GenNext == \/ Show
           \/ \E p \in {RandomElement(1..(10 + 0 * Len(hist)))} : IF p <= 6 THEN (IF ENABLED Start THEN Start ELSE Step) ELSE IF p <= 8 THEN (IF ENABLED Step THEN Step ELSE Start)
                                                ELSE IF p = 9 THEN Tick ELSE \E q \in {RandomElement(1..(4 + 0 * Len(hist)))} : IF q = 1 /\ ENABLED Abort THEN Abort ELSE IF ver < MaxVer /\ q > 1 THEN Change ELSE Tick
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars
Bound == Len(fl) <= 3 /\ clock <= 1
View == <<clock, ver, fl, shared>>
----------------------------------------------------------------------------
Function == \A i \in DOMAIN fl : fl[i].out = Expected(fl[i].key, fl[i].kind, fl[i].t, fl[i].ver)
Same == \A i, j \in DOMAIN fl : (fl[i].key = fl[j].key /\ fl[i].kind = fl[j].kind /\ fl[i].t = fl[j].t /\ fl[i].ver = fl[j].ver) => fl[i].out = fl[j].out
=============================================================================
