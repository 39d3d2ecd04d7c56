------------------------------ MODULE Analyzer -----------------------------
(* What the analysis of stored content has to give.                         *)
(* desc: [D, sets: <<[ct, reps: <<[id, ts, segs: <<[n, s, d]>>]>>]>>]       *)
(* (numbers, start ticks and durations of the stored segments, in order).   *)
(* The duration table is a sequence of runs [n, more, s, d]: segments n to  *)
(* n + more of duration d, the first one starting at s.                     *)
EXTENDS Base

\* Run-length coding, one segment at a time: tab is written, run (<<>> or <<r>>) is open.
Continues(r, x) == x.d = r.d /\ x.s = r.s + (r.more + 1) * r.d
ScanTab(tab, run, x) == IF run # <<>> /\ ~Continues(run[1], x) THEN Append(tab, run[1]) ELSE tab
ScanRun(run, x) == IF run # <<>> /\ Continues(run[1], x) THEN <<[run[1] EXCEPT !.more = @ + 1]>>
                   ELSE <<[n |-> x.n, more |-> 0, s |-> x.s, d |-> x.d]>>
RECURSIVE Expand(_)
Expand(tab) == IF tab = <<>> THEN <<>>
  ELSE LET r == Head(tab) IN [i \in 1..(r.more + 1) |-> [n |-> r.n + i - 1, s |-> r.s + (i - 1) * r.d, d |-> r.d]] \o Expand(Tail(tab))

Reps(desc) == UNION {Range(desc.sets[i].reps) : i \in DOMAIN desc.sets}
Consecutive(r) == r.segs # <<>> /\ \A i \in 1..(Len(r.segs) - 1) : r.segs[i + 1].n = r.segs[i].n + 1
\* the loop: the segments that all representations have
LoopLen(desc) == LET S == {Len(r.segs) : r \in Reps(desc)} IN CHOOSE x \in S : \A y \in S : x <= y
FirstNr(desc) == desc.sets[1].reps[1].segs[1].n
\* distance of the end of a segment from the nominal grid, in ticks
Drift(desc, r, i) == LET x == r.segs[i].s + r.segs[i].d - (r.segs[1].s + i * desc.D * r.ts) IN IF x < 0 THEN -x ELSE x
Drifting(desc, m) == {r \in Reps(desc) : \E i \in DOMAIN r.segs : i <= m /\ Drift(desc, r, i) >= (r.ts \div 10) + 1}

Flaws(desc) ==
  (IF \E i, j \in DOMAIN desc.sets : i # j /\ desc.sets[i].ct = desc.sets[j].ct THEN {"twice"} ELSE {})
  \cup (IF \E i \in DOMAIN desc.sets : \E r \in Range(desc.sets[i].reps) : r.ts # desc.sets[i].reps[1].ts THEN {"timescale"} ELSE {})
  \cup (IF \E r \in Reps(desc) : ~Consecutive(r) THEN {"missing"}
        ELSE (IF \E r \in Reps(desc) : r.segs[1].n # FirstNr(desc) THEN {"first"} ELSE {})
             \cup (IF Drifting(desc, LoopLen(desc)) # {} THEN {"drift"} ELSE {}))
\* not decided: a tenth of a second to the tick, and drift only behind the loop
Unclear(desc) == Flaws(desc) = {} /\ (\E r \in Reps(desc) : \E i \in DOMAIN r.segs : Drift(desc, r, i) >= r.ts \div 10)

Looped(desc, r) == SubSeq(r.segs, 1, LoopLen(desc))
Ticks(segs) == segs[Len(segs)].s + segs[Len(segs)].d - segs[1].s
=============================================================================
