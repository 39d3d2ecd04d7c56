------------------------------- MODULE Base -------------------------------
(* Arithmetic and time helpers shared by all modules.                      *)
(* TLC integers are 32 bit: absolute times are whole seconds, instants are *)
(* pairs <<sec, ms>>, media times are pairs <<sec, ticks below one second>>.*)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == -999999999          \* "option / value absent"
Inf  == -1                  \* infinite availability time offset

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Quant(x, s) == (x \div s) * s                 \* round down to a multiple
QuantUp(x, s) == ((x + s - 1) \div s) * s     \* round up to a multiple

\* instants <<sec, ms>>
TLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
TLeq(a, b) == ~TLess(b, a)
TAddMs(a, ms) == LET m == a[2] + ms IN <<a[1] + (m \div 1000), m % 1000>>
Sec(x) == <<x, 0>>
TMax(a, b) == IF TLess(a, b) THEN b ELSE a

\* media times <<sec, ticks>> in a timescale ts
MTNorm(sec, ticks, ts) == <<sec + (ticks \div ts), ticks % ts>>
MTAdd(a, ticks, ts) == MTNorm(a[1], a[2] + ticks, ts)
MTLess(a, b) == TLess(a, b)
MTLeq(a, b) == TLeq(a, b)

RECURSIVE SumTo(_, _)
SumTo(seq, i) == IF i = 0 THEN 0 ELSE seq[i] + SumTo(seq, i - 1)

Range(s) == {s[i] : i \in DOMAIN s}
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Has(s, x) == \E i \in DOMAIN s : s[i] = x
\* number of positions of sequence s satisfying ...
CountIf(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
\* a failing clause contributes its name
Clause(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
