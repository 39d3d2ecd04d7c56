----------------------------- MODULE MCAnalyzer ----------------------------
(* All short contents: whatever the durations and gaps, the table expands   *)
(* to exactly the segments scanned, and no two of its runs could be one.    *)
EXTENDS Analyzer
CONSTANTS MaxSegs, Durs, Gaps
VARIABLES seen, tab, run
vars == <<seen, tab, run>>
Init == seen = <<>> /\ tab = <<>> /\ run = <<>>
Scan == /\ Len(seen) < MaxSegs
        /\ \E d \in Durs, g \in Gaps :
             LET x == IF seen = <<>> THEN [n |-> 7, s |-> 3, d |-> d]
                      ELSE LET y == seen[Len(seen)] IN [n |-> y.n + 1, s |-> y.s + y.d + g, d |-> d]
             IN seen' = Append(seen, x) /\ tab' = ScanTab(tab, run, x) /\ run' = ScanRun(run, x)
Spec == Init /\ [][Scan]_vars
Faithful == Expand(tab \o run) = seen
Shortest == LET all == tab \o run IN \A i \in 1..(Len(all) - 1) :
              ~Continues(all[i], [n |-> all[i + 1].n, s |-> all[i + 1].s, d |-> all[i + 1].d])
Increasing == LET all == tab \o run IN \A i \in 1..(Len(all) - 1) : all[i + 1].n = all[i].n + all[i].more + 1
=============================================================================
