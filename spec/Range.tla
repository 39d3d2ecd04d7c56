------------------------------- MODULE Range -------------------------------
(* Byte ranges. A header is [single, first, last]: first = -1 is a suffix    *)
(* range of the last 'last' bytes, last = -1 is open ended, single = FALSE   *)
(* is everything that is not one well-formed byte range.                     *)
EXTENDS Base
\* <<first, last>> of the bytes to send, or <<>>: the range is not honoured and the reply is complete
Honour(L, r) ==
  IF ~r.single \/ L = 0 THEN <<>>
  ELSE IF r.first = -1 THEN (IF r.last <= 0 THEN <<>> ELSE <<Max2(L - r.last, 0), L - 1>>)
  ELSE IF r.first >= L THEN <<>>
  ELSE IF r.last = -1 THEN <<r.first, L - 1>>
  ELSE IF r.last < r.first THEN <<>>
  ELSE <<r.first, Min2(r.last, L - 1)>>
=============================================================================
