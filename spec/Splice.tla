------------------------------- MODULE Splice ------------------------------
(* SCTE-35 splices: schedule, announcing segments and event contents.       *)
EXTENDS Base

\* seconds of the minute at which breaks start
Schedule(rate) == CASE rate = 1 -> <<10>> [] rate = 2 -> <<10, 40>> [] rate = 3 -> <<10, 36, 46>> [] OTHER -> <<>>
BreakSecs == 10

\* splices that are announced in the segment [s, s+D]: the closed interval contains the
\* instant 6 or 8 seconds before the splice
Announced(rate, s, D) ==
  {t \in {m + Schedule(rate)[j] : m \in {(s \div 60) * 60, (s \div 60) * 60 + 60}, j \in DOMAIN Schedule(rate)} :
      \E w \in {6, 8} : s <= t - w /\ t - w <= s + D}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* splice announced by the segment starting at s, or -1
SpliceOf(rate, s, D) == IF Announced(rate, s, D) = {} THEN -1 ELSE MinOf(Announced(rate, s, D))

\* 90000*t modulo 2^33 is a multiple of 16: pts/16 = 5625*t modulo 2^29, in limbs of 2^14/2^15
Pts16(t) ==
  LET hi == t \div 32768
      lo == t % 32768
  IN (((hi * 5625) % 16384) * 32768 + lo * 5625) % 536870912
=============================================================================
