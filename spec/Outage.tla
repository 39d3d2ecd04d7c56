------------------------------- MODULE Outage ------------------------------
(* Simulated server outages: per-minute up/down schedules of base URLs.     *)
EXTENDS Manifest

\* a schedule repeats within the minute, each cycle starts after its boundary second:
\* cycle i covers the seconds i*T < m <= (i+1)*T of the minute
Cycles(b) == LET T == b.a + b.b IN 0..((60 + T - 1) \div T - 1)

Down(b, now) ==
  LET m == now % 60
      T == b.a + b.b
  IN IF b.first = "u" THEN \E i \in Cycles(b) : i * T + b.a < m /\ m <= (i + 1) * T
     ELSE \E i \in Cycles(b) : i * T < m /\ m <= i * T + b.a

\* the last second before the server goes down
LastUp(b, now) ==
  b.first = "u" /\ ~Down(b, now) /\ \E i \in Cycles(b) : now % 60 = i * (b.a + b.b) + b.a

\* the latest up second of a u/d schedule while it is down
LastUpTime(b, now) ==
  LET m == now % 60
      T == b.a + b.b
      i == CHOOSE i \in Cycles(b) : i * T + b.a < m /\ m <= (i + 1) * T
  IN now - m + i * T + b.a

\* the schedule that governs media of this URL
Single(o) == Len(o.baseurl) = 1
MediaDown(o, now) == Single(o) /\ Down(o.baseurl[1], now)
MediaLastUp(o, now) == Single(o) /\ LastUp(o.baseurl[1], now)

\* segment-loss signalling in the manifest
LossOn(o) == o.segtimelineloss = 1 /\ Len(o.baseurl) > 0 /\ o.baseurl[1].first = "u"
Frozen(o, now) == LossOn(o) /\ Down(o.baseurl[1], now)
MpdTime(o, now) == IF Frozen(o, now) THEN LastUpTime(o.baseurl[1], now) ELSE now
MpdLastUp(o, now) == LossOn(o) /\ LastUp(o.baseurl[1], now)
=============================================================================
