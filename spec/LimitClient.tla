---------------------------- MODULE LimitClient ----------------------------
(* Clients of a server with a session limit: they ask for manifests, follow  *)
(* redirects, keep using their session, invent session starts. The clock     *)
(* runs in quarters of a second.                                             *)
EXTENDS Limit, Json
CONSTANTS Maxes, Steps, Skews, MaxHist, Horizon, MaxSess, Emit
VARIABLES max, now, sessions, hist
vars == <<max, now, sessions, hist>>
SkewSet == {-8, -4, -1, 0, 1, 4, 5, 6, 9}
SkewWide == {-3600, -1000, -61, -60, -59, -8, -7, -6, -1, 0, 1, 4, 5, 6, 9, 1000}
T(q) == <<q \div 4, 250 * (q % 4)>>
Kinds == {"mpd", "other"}
\* a session: start announced in the redirect, instant of the redirect
Init == max \in Maxes /\ now \in 80..83 /\ sessions = {} /\ hist = <<>>
Tick == \E d \in Steps : now + d <= Horizon /\ now' = now + d /\ UNCHANGED <<max, sessions, hist>>
Note(kind, sts, w) == Append(hist, [t |-> T(now), q |-> now, kind |-> kind, sts |-> sts, fate |-> Fate(max, sts, T(now), kind = "mpd"), since |-> w])
Ask == \E kind \in Kinds : /\ Len(hist) < MaxHist
   /\ hist' = Note(kind, NONE, 0)
   /\ sessions' = (IF Fate(max, NONE, T(now), kind = "mpd") = "redirect" THEN (IF Cardinality(sessions) < MaxSess THEN sessions \cup {<<now \div 4, now>>} ELSE {<<now \div 4, now>>}) ELSE sessions)
   /\ UNCHANGED <<max, now>>
Use == \E s \in sessions, kind \in Kinds : Len(hist) < MaxHist /\ hist' = Note(kind, s[1], s[2]) /\ UNCHANGED <<max, now, sessions>>
Invent == \E k \in Skews, kind \in Kinds : Len(hist) < MaxHist /\ hist' = Note(kind, (now \div 4) + k, 0) /\ UNCHANGED <<max, now, sessions>>
\* just at the ends of a session
Edge == \E s \in sessions, d \in -2..2, kind \in Kinds :
   /\ Len(hist) < MaxHist /\ 4 * (s[1] + max) + d >= now
   /\ now' = 4 * (s[1] + max) + d /\ now' <= Horizon
   /\ hist' = Append(hist, [t |-> T(now'), q |-> now', kind |-> kind, sts |-> s[1], fate |-> Fate(max, s[1], T(now'), kind = "mpd"), since |-> s[2]])
   /\ UNCHANGED <<max, sessions>>
Show == /\ Emit /\ Len(hist) = MaxHist /\ PrintT("GEN " \o ToJson([max |-> max, h |-> hist]))
        /\ hist' = Append(hist, [hist[1] EXCEPT !.kind = "end"]) /\ UNCHANGED <<max, now, sessions>>
Next == Tick \/ Ask \/ Use \/ Invent \/ Edge \/ Show
Spec == Init /\ [][Next]_vars
View == <<max, now, sessions, IF hist = <<>> THEN 0 ELSE hist[Len(hist)]>>
----------------------------------------------------------------------------
H == hist[Len(hist)]
Real == hist # <<>> /\ H.kind # "end"
\* a redirected client is served at once, for at least the limit minus the fraction of the first second, at most for the limit
Served == Real => (H.since # 0 =>
            /\ (H.q - H.since <= 4 * (max - 1) => H.fate = "pass")
            /\ (H.q - H.since > 4 * max => H.fate = "gone"))
\* nobody is served without a session as long as there is a limit
NoFree == Real => (max > 0 /\ H.sts = NONE => H.fate \in {"redirect", "nostart"})
\* no session start, invented or not, gives more than the limit plus the margin
Bounded == Real => (H.fate = "pass" => H.q - 4 * H.sts <= 4 * max /\ 4 * H.sts - H.q <= 4 * MarginSec)
NoLimit == Real => (max = 0 => H.fate = "off")
=============================================================================
