------------------------------- MODULE Limit -------------------------------
(* The session limit. max: seconds (0: none), sts: session start in the      *)
(* request or NONE, t: instant.                                              *)
EXTENDS Base
MarginSec == 5
Fate(max, sts, t, ismpd) ==
  IF max = 0 THEN "off"
  ELSE IF sts = NONE THEN (IF ismpd THEN "redirect" ELSE "nostart")
  ELSE IF TLess(Sec(sts + max), t) THEN "gone"
  ELSE IF TLess(TAddMs(t, 1000 * MarginSec), Sec(sts)) THEN "future"
  ELSE "pass"
=============================================================================
