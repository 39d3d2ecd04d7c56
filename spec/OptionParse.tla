---------------------------- MODULE OptionParse ----------------------------
(* Processing of a URL part by part, as the server does it, over all small   *)
(* paths: the outcome depends on the set of options only.                    *)
EXTENDS Options, Json
CONSTANTS MaxParts, Emit
Part(k, cls, v) == [key |-> k, cls |-> cls, val |-> v]
Alphabet == {Part("start", "int", 100), Part("ast", "int", 100), Part("startrel", "int", -7), Part("stop", "int", 900), Part("modulo", "int", 10), Part("tfdt", "word", 0), Part("cont", "int", 1), Part("snr", "int", 3),
             Part("snr", "int", -2), Part("snr", "word", 0), Part("sts", "int", 5), Part("sid", "word", 0), Part("tsbd", "int", 20), Part("tsbd", "bare", 0), Part("utc", "word", 0), Part("utc", "int", 0),
             Part("foo", "int", 1), Part("content", "bare", 0)}
VARIABLES path, at, cfg, phase
vars == <<path, at, cfg, phase>>
Empty == [opts |-> {}, start |-> NONE, stop |-> NONE, modulo |-> NONE, tfdt |-> FALSE, cont |-> FALSE, snr |-> 0, tsbd |-> NONE, utc |-> TRUE, name |-> "", err |-> FALSE]
Init == /\ path \in UNION {[1..n -> Alphabet] : n \in 1..MaxParts}
        /\ \A i, j \in DOMAIN path : i # j => path[i].key # path[j].key
        /\ at = 1 /\ cfg = Empty /\ phase = "parse"
Set(p) ==
  IF p.cls = "bare" \/ (p.key \in IntKeys /\ p.cls # "int") \/ (p.key = "snr" /\ p.val < -1) THEN [cfg EXCEPT !.err = TRUE]
  ELSE CASE p.key \in Markers -> cfg
         [] p.key \in {"start", "ast"} -> [cfg EXCEPT !.start = p.val]
         [] p.key = "startrel" -> [cfg EXCEPT !.start = 50 + p.val]
         [] p.key = "stop" -> [cfg EXCEPT !.stop = p.val]
         [] p.key = "modulo" -> [cfg EXCEPT !.modulo = p.val]
         [] p.key = "tfdt" -> [cfg EXCEPT !.tfdt = TRUE]
         [] p.key = "cont" -> [cfg EXCEPT !.cont = TRUE]
         [] p.key = "snr" -> [cfg EXCEPT !.snr = p.val]
         [] p.key = "tsbd" -> [cfg EXCEPT !.tsbd = p.val]
         [] p.key = "utc" -> [cfg EXCEPT !.utc = (p.cls # "word")]
Parse == /\ phase = "parse"
         /\ IF at > Len(path) \/ cfg.err THEN phase' = "done" /\ UNCHANGED <<cfg, at>>
            ELSE IF path[at].key \in Keys THEN cfg' = Set(path[at]) /\ at' = at + 1 /\ phase' = phase
            ELSE cfg' = [cfg EXCEPT !.name = path[at].key] /\ at' = at + 1 /\ phase' = "done"
         /\ UNCHANGED path
Check == /\ phase = "done" /\ phase' = "checked"
         /\ cfg' = (IF (cfg.start # NONE /\ cfg.modulo # NONE) \/ (cfg.tfdt /\ cfg.cont) THEN [cfg EXCEPT !.err = TRUE] ELSE cfg)
         /\ UNCHANGED <<path, at>>
Next == Parse \/ Check
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* what the set of options says
Os == OptionParts(path)
Val(k, none) == IF k \in Keyset(Os) THEN (LET i == CHOOSE i \in DOMAIN Os : Os[i].key = k IN Os[i].val) ELSE none
Meant == [start |-> IF "startrel" \in Keyset(Os) THEN 50 + Val("startrel", 0) ELSE Val("start", Val("ast", NONE)), stop |-> Val("stop", NONE), modulo |-> Val("modulo", NONE),
          snr |-> Val("snr", 0), tsbd |-> Val("tsbd", NONE)]
Distinct == Cardinality(Keyset(Os) \cap StartKeys) <= 1        \* start, ast and startrel are the same option
Checked == phase = "checked"
RefusedRight == Checked => (cfg.err = Inconsistent(Os))
ClockRight == Checked /\ ~cfg.err => (cfg.utc # NoClock(Os))
OrderFree == Checked /\ ~cfg.err /\ Distinct =>
   /\ cfg.start = Meant.start /\ cfg.stop = Meant.stop /\ cfg.modulo = Meant.modulo /\ cfg.snr = Meant.snr /\ cfg.tsbd = Meant.tsbd
   /\ cfg.tfdt = ("tfdt" \in Keyset(Os)) /\ cfg.cont = ("cont" \in Keyset(Os))
\* the content is the first part without a known key; nothing behind it is an option
NameRight == Checked /\ ~cfg.err => (IF Len(Os) < Len(path) THEN cfg.name = path[Len(Os) + 1].key ELSE cfg.name = "")
=============================================================================
