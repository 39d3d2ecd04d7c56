-------------------------------- MODULE Chunks ------------------------------
(* Delivery of a segment in chunks: the producer appends the samples one by  *)
(* one to the current chunk and closes it as soon as it reaches its share of *)
(* the segment; a chunk is released at its instant. The judgements of the    *)
(* conformance check (module Boxes) are the invariants here.                 *)
EXTENDS Boxes
CONSTANTS MaxSamples, MaxDur, ChunkDurs, SegSec    \* durations in ticks; a tick is 250 ms
VARIABLES smp, d, closed, cur, at, t0, clock, sent
vars == <<smp, d, closed, cur, at, t0, clock, sent>>
TickMs == 250
\* a sample: <<number, size, duration>>
SampleSeqs == UNION {{[i \in 1..m |-> <<i, 1, x[i]>>] : x \in [1..m -> 1..MaxDur]} : m \in 1..MaxSamples}
RECURSIVE DurOf(_)
DurOf(s) == IF s = <<>> THEN 0 ELSE Head(s)[3] + DurOf(Tail(s))
SumSeq(ss) == DurOf(Concat(ss))
Init == /\ smp \in SampleSeqs /\ d \in ChunkDurs /\ closed = <<>> /\ cur = <<>> /\ at = 1
        /\ t0 \in {TAddMs(Sec(SegSec), x * TickMs) : x \in {-1, 0, 1, 2, 5, 40}} /\ clock = t0 /\ sent = <<>>
Take == /\ at <= Len(smp)
        /\ LET c2 == Append(cur, smp[at])
               full == SumSeq(closed) + DurOf(c2) >= (Len(closed) + 1) * d
           IN IF full \/ at = Len(smp) THEN closed' = Append(closed, c2) /\ cur' = <<>> ELSE closed' = closed /\ cur' = c2
        /\ at' = at + 1 /\ UNCHANGED <<smp, d, t0, clock, sent>>
\* the reader: waits until the release instant of the next chunk, if that lies in the future
Send == /\ at > Len(smp) /\ Len(sent) < Len(closed)
        /\ LET r == Release(SegSec, Len(sent) + 1, d * TickMs) IN
           /\ clock' = TMax(clock, r)
           /\ sent' = Append(sent, TMax(clock, r))
        /\ UNCHANGED <<smp, d, closed, cur, at, t0>>
Next == Take \/ Send
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* the fragments as the conformance check sees them
F == [ok |-> TRUE, frags |-> [i \in DOMAIN closed |-> [tracks |-> <<[smp |-> closed[i], dur |-> DurOf(closed[i])]>>]]]
Done == at > Len(smp)
Partition == Done => AllSamples(F) = smp
Prefix == AllSamples(F) \o cur = SubSeq(smp, 1, at - 1)
CutWell == Done => JustReaching(F, d) /\ LastNotOver(F, d)
NoEmpty == \A i \in DOMAIN closed : closed[i] # <<>>
NotBefore == \A i \in DOMAIN sent : TLeq(Release(SegSec, i, d * TickMs), sent[i])
NoDelay == \A i \in DOMAIN sent : sent[i] = TMax(t0, Release(SegSec, i, d * TickMs))
Monotone == \A i \in 1..(Len(sent) - 1) : TLeq(sent[i], sent[i + 1])
\* never more chunks than whole or begun chunk durations
CountOK == Done => Len(closed) <= (SumSeq(closed) + d - 1) \div d
=============================================================================
