------------------------------ MODULE Captions -----------------------------
(* Insertion of captions. A caption: [t: <<seconds, frames>>, w: words];    *)
(* a sample: [d: ticks, u: its units [dig, t]] (t: unit type, 1..5 belong   *)
(* to the picture). Captions go, in time order, into the sample that covers *)
(* their time, before its first picture unit, in packets of up to 31 words. *)
EXTENDS Base
PerPacket == 31
\* 29.97 frames per second, whole milliseconds
CapTime(c) == <<c.t[1], Min2((c.t[2] * 100000) \div 2997, 999)>>
\* <<sec, ms>> not after <<sec, ticks>> (of ts)
NotAfter(a, b, ts) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] * ts <= b[2] * 1000)
Before(a, b, ts) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] * ts < b[2] * 1000)
Covers(from, to, ts, c) == ~Before(CapTime(c), from, ts) /\ Before(CapTime(c), to, ts)

RECURSIVE InOrder(_, _)
InOrder(caps, S) == IF S = {} THEN <<>>
  ELSE LET i == CHOOSE x \in S : \A y \in S : TLess(CapTime(caps[x]), CapTime(caps[y])) \/ (CapTime(caps[x]) = CapTime(caps[y]) /\ x <= y)
       IN <<i>> \o InOrder(caps, S \ {i})
RECURSIVE Packets(_)
Packets(w) == IF w = <<>> THEN <<>> ELSE IF Len(w) <= PerPacket THEN <<w>>
              ELSE <<SubSeq(w, 1, PerPacket)>> \o Packets(SubSeq(w, PerPacket + 1, Len(w)))
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Joined(Tail(s))
Hits(caps, from, to, ts) == {i \in DOMAIN caps : caps[i].w # <<>> /\ Covers(from, to, ts, caps[i])}
Inserted(caps, from, to, ts) == LET o == InOrder(caps, Hits(caps, from, to, ts)) IN Joined([k \in DOMAIN o |-> Packets(caps[o[k]].w)])

Picture(u) == u.t \in 1..5
FirstPicture(us) == IF \E i \in DOMAIN us : Picture(us[i]) THEN CHOOSE i \in DOMAIN us : Picture(us[i]) /\ \A j \in 1..(i - 1) : ~Picture(us[j]) ELSE Len(us) + 1
\* start of sample k of a segment that starts at s
SampleStart(s, smp, k, ts) == MTAdd(s, SumTo([j \in DOMAIN smp |-> smp[j].d], k - 1), ts)
CapSegEnd(x, ts) == SampleStart(x.start, x.smp, Len(x.smp) + 1, ts)
=============================================================================
