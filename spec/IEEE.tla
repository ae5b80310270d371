-------------------------------- MODULE IEEE --------------------------------
(* binary64, exactly.  A number is [c, s, n, x, r, id]: c = "fin": (-1)^s * n * 2^x, where n is a natural number as  *)
(* its digits in base 2^15, least significant first, without leading zeros; c = "inf" (s its sign); c = "nan";      *)
(* c = "none": not known.  Any n and x are allowed; what Round returns fits binary64.                               *)
(* id # 0 identifies a number read from a trace (equal ids = equal bits), r is then its rank among all numbers of   *)
(* the trace file (equal ranks = numerically equal; NaN has rank 0).  Computed numbers have id = r = 0.             *)
EXTENDS Integers, Sequences

LOCAL B == 32768
RECURSIVE Trim(_)
Trim(n) == IF n # <<>> /\ n[Len(n)] = 0 THEN Trim(SubSeq(n, 1, Len(n) - 1)) ELSE n
\* Digits that may be out of range, with a carry into the i-th.
RECURSIVE Carry(_, _, _)
Carry(n, i, c) == IF i > Len(n) THEN (IF c = 0 THEN <<>> ELSE <<c % B>> \o Carry(<<>>, 1, c \div B))
                        ELSE LET t == n[i] + c IN <<t % B>> \o Carry(n, i + 1, t \div B)
LOCAL Digits(n) == Trim(Carry(n, 1, 0))
LOCAL At(n, i) == IF i \in DOMAIN n THEN n[i] ELSE 0
LOCAL Max(a, b) == IF a < b THEN b ELSE a
LOCAL NatAdd(a, b) == Digits([i \in 1..Max(Len(a), Len(b)) |-> At(a, i) + At(b, i)])
LOCAL NatSub(a, b) == Digits([i \in 1..Len(a) |-> a[i] - At(b, i)])            \* a >= b
RECURSIVE NatLtFrom(_, _, _)
NatLtFrom(a, b, i) == i > 0 /\ (a[i] < b[i] \/ (a[i] = b[i] /\ NatLtFrom(a, b, i - 1)))
LOCAL NatLt(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ NatLtFrom(a, b, Len(a)))
LOCAL NatTimes(a, k) == Digits([i \in DOMAIN a |-> a[i] * k])                     \* 0 <= k < 2^15
LOCAL Zeros(k) == [i \in 1..k |-> 0]
LOCAL NatShl(a, d) == IF a = <<>> THEN a ELSE Zeros(d \div 15) \o NatTimes(a, 2^(d % 15))
LOCAL NatShr(a, d) == LET q == d \div 15
                          r == d % 15
                      IN IF q >= Len(a) THEN <<>>
                         ELSE Trim([i \in 1..(Len(a) - q) |-> (a[q + i] \div 2^r) + (At(a, q + i + 1) % 2^r) * 2^(15 - r)])
\* Are the lowest d bits zero?
LOCAL LowZero(a, d) == LET q == d \div 15
                       IN (\A i \in 1..Len(a) : i <= q => a[i] = 0) /\ At(a, q + 1) % 2^(d % 15) = 0
LOCAL BitOf(a, d) == (At(a, (d \div 15) + 1) \div 2^(d % 15)) % 2
RECURSIVE Bits(_)
Bits(k) == IF k = 0 THEN 0 ELSE 1 + Bits(k \div 2)
LOCAL BitLen(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + Bits(a[Len(a)])
RECURSIVE NatMul(_, _)
NatMul(a, b) == IF b = <<>> THEN <<>> ELSE NatAdd(NatTimes(a, b[1]), NatShl(NatMul(a, Tail(b)), 15))

LOCAL Rec(c, s, n, x) == [c |-> c, s |-> s, n |-> n, x |-> x, r |-> 0, id |-> 0]
Fin(s, n, x) == Rec("fin", s, n, x)
FZero == Fin(0, <<>>, 0)
FInf(s) == Rec("inf", s, <<>>, 0)
FNaN == Rec("nan", 0, <<>>, 0)
FNone == Rec("none", 0, <<>>, 0)

\* The nearest binary64, ties to even.
FRound(a) ==
  IF a.c # "fin" THEN a
  ELSE LET drop == Max(BitLen(a.n) - 53, -1074 - a.x)
           t == IF drop <= 0 THEN a.n ELSE NatShr(a.n, drop)
           up == drop > 0 /\ BitOf(a.n, drop - 1) = 1 /\ (At(t, 1) % 2 = 1 \/ ~LowZero(a.n, drop - 1))
           n == IF up THEN NatAdd(t, <<1>>) ELSE t
           x == IF drop <= 0 THEN a.x ELSE a.x + drop
       IN IF BitLen(n) + x > 1024 /\ n # <<>> THEN FInf(a.s) ELSE Fin(a.s, n, x)

FNeg(a) == IF a.c = "nan" THEN FNaN ELSE Rec(a.c, 1 - a.s, a.n, a.x)
FAbs(a) == Rec(a.c, 0, a.n, a.x)
FIsZero(a) == a.c = "fin" /\ a.n = <<>>

\* Exact sum and product; both finite.
FSum(a, b) ==
  LET x == IF a.x < b.x THEN a.x ELSE b.x
      p == NatShl(a.n, a.x - x)
      q == NatShl(b.n, b.x - x)
  IN IF a.s = b.s THEN Fin(a.s, NatAdd(p, q), x)
     ELSE IF p = q THEN Fin(0, <<>>, x)
     ELSE IF NatLt(p, q) THEN Fin(b.s, NatSub(q, p), x)
     ELSE Fin(a.s, NatSub(p, q), x)
LOCAL Top(a) == BitLen(a.n) + a.x          \* |a| < 2^Top(a)
FProduct(a, b) == Fin((a.s + b.s) % 2, NatMul(a.n, b.n), a.x + b.x)
FAdd(a, b) ==
  CASE a.c = "none" \/ b.c = "none" -> FNone
    [] a.c = "nan" \/ b.c = "nan" -> FNaN
    [] a.c = "inf" /\ b.c = "inf" -> IF a.s = b.s THEN a ELSE FNaN
    [] a.c = "inf" -> a
    [] b.c = "inf" -> b
    [] a.n = <<>> -> FRound(b)
    [] b.n = <<>> -> FRound(a)
    [] Top(b) < Top(a) - 120 -> FRound(a)
    [] Top(a) < Top(b) - 120 -> FRound(b)
    [] OTHER -> FRound(FSum(a, b))
FMul(a, b) ==
  CASE a.c = "none" \/ b.c = "none" -> FNone
    [] a.c = "nan" \/ b.c = "nan" -> FNaN
    [] a.c = "inf" \/ b.c = "inf" ->
         IF (a.c = "fin" /\ a.n = <<>>) \/ (b.c = "fin" /\ b.n = <<>>) THEN FNaN ELSE FInf((a.s + b.s) % 2)
    [] OTHER -> FRound(FProduct(a, b))

\* |a| < |b|, both finite.
FMagLt(a, b) ==
  CASE b.n = <<>> -> FALSE
    [] a.n = <<>> -> TRUE
    [] Top(a) # Top(b) -> Top(a) < Top(b)
    [] OTHER -> LET x == IF a.x < b.x THEN a.x ELSE b.x IN NatLt(NatShl(a.n, a.x - x), NatShl(b.n, b.x - x))
\* a < b; neither is NaN.
FLt(a, b) ==
  CASE a.id # 0 /\ b.id # 0 -> a.r < b.r
    [] a.c = "inf" -> a.s = 1 /\ ~(b.c = "inf" /\ b.s = 1)
    [] b.c = "inf" -> b.s = 0
    [] a.n = <<>> -> b.n # <<>> /\ b.s = 0
    [] b.n = <<>> -> a.s = 1
    [] a.s # b.s -> a.s = 1
    [] a.s = 0 -> FMagLt(a, b)
    [] OTHER -> FMagLt(b, a)
\* The same number (0 = -0; NaN = NaN).
FEq(a, b) ==
  CASE a.id # 0 /\ b.id # 0 -> a.r = b.r
    [] a.c = "fin" /\ b.c = "fin" -> ~FMagLt(a, b) /\ ~FMagLt(b, a) /\ (a.s = b.s \/ a.n = <<>>)
    [] a.c = "inf" /\ b.c = "inf" -> a.s = b.s
    [] OTHER -> a.c = b.c
\* The exponent of a unit in the last place of a (finite).
FUlp(a) == Max(Top(a) - 53, -1074)
\* Both finite and at most k units of 2^x apart.
FNear(a, b, k, x) ==
  a.c = "fin" /\ b.c = "fin" /\ (LET d == FAdd(a, FNeg(b)) IN d.c = "fin" /\ ~FMagLt(Fin(0, Digits(<<k>>), x), d))

FOfInt(i) == Fin(IF i < 0 THEN 1 ELSE 0, Digits(<<IF i < 0 THEN -i ELSE i>>), 0)
\* A natural number below 2^64.
FIsNat64(a) == a.c = "fin" /\ (a.n = <<>> \/ (a.s = 0 /\ Top(a) <= 64 /\ (a.x >= 0 \/ LowZero(a.n, -a.x))))
\* Binary64 has it.
FFits(a) == a.c # "fin" \/ BitLen(a.n) <= 53

\* n/10^9 for 0 <= n < 10^9: the first bits of the quotient, and a last one for the rest.
RECURSIVE DivBits(_, _, _)
DivBits(r, q, k) ==
  IF k = 0 THEN [q |-> q, r |-> r]
  ELSE LET t == 2 * r
       IN IF t >= 1000000000 THEN DivBits(t - 1000000000, [q EXCEPT ![1 + ((k - 1) \div 15)] = @ + 2^((k - 1) % 15)], k - 1)
          ELSE DivBits(t, q, k - 1)
FNanos(n) == LET d == DivBits(n, Zeros(6), 90) IN FRound(Fin(0, NatAdd(NatShl(Trim(d.q), 1), IF d.r = 0 THEN <<>> ELSE <<1>>), -91))
\* s seconds and n nanoseconds (0 <= n < 10^9), added with one rounding for the quotient and one for the sum.
FSecs(s, n) == FAdd(FOfInt(s), FNanos(n))

\* floor(a * k) and floor of the nearest binary64 to a*k, for 0 <= a <= 1 and k >= 0.
RECURSIVE ToInt(_)
ToInt(n) == IF n = <<>> THEN 0 ELSE n[1] + B * ToInt(Tail(n))
LOCAL Floor(a) == ToInt(IF a.x >= 0 THEN NatShl(a.n, a.x) ELSE NatShr(a.n, -a.x))
FFloorMul(a, k) == LET p == Fin(0, NatMul(a.n, FOfInt(k).n), a.x) IN {Floor(p), Floor(FRound(p))}
=============================================================================
