-------------------------------- MODULE Trace ------------------------------
(* Validates recorded sessions of the real server: every session is a       *)
(* behaviour, every event must be explained by the specification. Verdicts  *)
(* are total: every event reports the clauses that applied and that failed. *)
EXTENDS Judge, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES sess, pos
vars == <<sess, pos>>
Report(si, i) ==
  LET s == Data.sessions[si]
      J == JudgeEvent(s, Data.contents[s.c], i)
  IN PrintT("EV " \o ToJson(<<si, i, {x[1] : x \in J}, {x[1] : x \in {y \in J : ~y[2]}}>>))
Init == sess \in DOMAIN Data.sessions /\ pos = 0
Next == /\ pos < Len(Data.sessions[sess].ev)
        /\ pos' = pos + 1 /\ sess' = sess
        /\ Report(sess, pos + 1)
Spec == Init /\ [][Next]_vars
=============================================================================
