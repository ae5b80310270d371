------------------------------- MODULE Num -------------------------------
(* Numbers, sums of them, and times.                                                                              *)
EXTENDS IEEE, Sequences, FiniteSets

NaN == FNaN
PInf == FInf(0)
Unknown == FNone
Whole(n) == FOfInt(n)                     \* n a TLC integer
Zero == FZero
One == Whole(1)
Neg(x) == FNeg(x)
Add(x, y) == FAdd(x, y)
Sub(x, y) == FAdd(x, FNeg(y))
Mul(x, n) == FMul(x, Whole(n))
Negative(x) == x.s = 1 /\ ~FIsZero(x) /\ x.c # "nan"

\* `spec` is what the specification says, `obs` a number read from a trace.
Eq(spec, obs) == spec.c = "none" \/ FEq(spec, obs)
\* Order; not for NaN.
Lt(x, y) == FLt(x, y)
Le(x, y) == ~FLt(y, x)
Same(x, y) == FEq(x, y)
\* A number that was handed over to the implementation (it comes back unchanged), or one that the implementation
\* computes from a time.
SameAs(spec, obs) == FEq(spec, obs) \/ (spec.id = 0 /\ FNear(spec, obs, 2, FUlp(spec)))

(* Sums.  A sum is [w, f, a, k]: w the exact total of the terms that are natural numbers below 2^64 (counters only),   *)
(* f the binary64 sum of the other terms in the order they came, a the sum of the magnitudes of those that are       *)
(* finite, k how far off a sum in another order, or of members, can be, in units in the last place of a.  k = 0: f    *)
(* has no rounding error that depends on the order.  f is unknown where another order could overflow.               *)
NoSum == [w |-> FZero, f |-> FZero, a |-> FZero, k |-> 0]
SumOf(x) == [NoSum EXCEPT !.f = x, !.a = IF x.c = "fin" THEN FAbs(x) ELSE FZero]
\* x is computed by the implementation from a time.
SumOfTime(x) == [SumOf(x) EXCEPT !.k = 2]
\* Terms in the order in which they come.
InOrder(p, x) == [w |-> p.w, f |-> FAdd(p.f, x), a |-> IF x.c = "fin" THEN FAdd(p.a, FAbs(x)) ELSE p.a, k |-> IF p.k = 0 THEN 0 ELSE p.k + 2]
\* Sums put together in any order.
Plus(p, q) ==
  LET a == FAdd(p.a, q.a)
  IN [w |-> IF q.w.n = <<>> THEN p.w ELSE FSum(p.w, q.w),
      f |-> IF a.c # "fin" THEN FNone ELSE FAdd(p.f, q.f),
      a |-> a,
      \* (a whole total too large for 64 bits is kept otherwise, and rounded)
      k |-> p.k + q.k + (IF FIsZero(q.f) THEN 0 ELSE 2) + (IF q.w.n # <<>> /\ ~FIsNat64(FSum(p.w, q.w)) THEN 4 ELSE 0)]
\* A term of a sum that is kept in any order, or of a counter.
Term(x) == [SumOf(x) EXCEPT !.k = IF x.id = 0 THEN 2 ELSE 0]
CountTerm(x) == IF FIsNat64(x) THEN [NoSum EXCEPT !.w = x] ELSE Term(x)
\* The sum of n sums (n > 1 of them have been rounded each).
Total(p) == IF FIsZero(p.w) THEN p.f ELSE FAdd(FRound(p.w), p.f)
SumIs(p, n, obs) ==
  IF p.f.c = "none" THEN TRUE
  ELSE LET t == Total(p)
           k == p.k + (IF n > 1 THEN n ELSE 0) + (IF FIsZero(p.w) \/ FIsZero(p.f) THEN 0 ELSE 2)
       IN \/ FEq(t, obs)
          \/ k > 0 /\ p.a.c # "fin"
          \/ k > 0 /\ t.c = "fin" /\ FNear(t, obs, k, FUlp(FAdd(FRound(p.w), p.a)))

(* Times: [s, n], s seconds (may be negative), 0 <= n < 10^9 nanoseconds.                                       *)
TNorm(s, n) == [s |-> s + (n \div 1000000000), n |-> n % 1000000000]
TAdd(a, b) == TNorm(a.s + b.s, a.n + b.n)
TSub(a, b) == TNorm(a.s - b.s, a.n - b.n)
TLe(a, b) == a.s < b.s \/ (a.s = b.s /\ a.n <= b.n)
\* Seconds as a number.
TNum(t) == IF t.s >= 0 THEN FSecs(t.s, t.n) ELSE LET u == TSub([s |-> 0, n |-> 0], t) IN FNeg(FSecs(u.s, u.n))
=============================================================================
