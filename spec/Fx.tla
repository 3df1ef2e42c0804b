-------------------------------- MODULE Fx --------------------------------
(***************************************************************************)
(* Real numbers as exact decimal fixed-point numbers.                      *)
(*                                                                         *)
(* TLC's integers have 32 bits, and the system specified here computes     *)
(* with real quantities of up to thirteen integer digits and needs about   *)
(* twelve significant fractional digits.  A real is therefore a tuple      *)
(*                                                                         *)
(*     <<sgn, d1, d2, ..., dn>>   =   sgn * (SUM d_k * 10^(4(k-1))) / 10^24 *)
(*                                                                         *)
(* with limbs d_k in 0..9999, little-endian, and no leading zero limb      *)
(* (d_n # 0); zero is <<0>>.  Every operator below is defined in pure      *)
(* TLA+; java/tlc2/module/Fx.java re-implements the ones marked (+) with   *)
(* java.math.BigInteger, for speed only.  FxCheck.tla asserts that both    *)
(* implementations give identical tuples.                                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Base == 10000
FracLimbs == 6                      \* 24 decimal fraction digits

FxZero == <<0>>

---------------------------------------------------------------------------
(* Magnitudes: little-endian limb sequences without leading zero limb. *)

RECURSIVE Strip(_)
Strip(m) == IF m = <<>> THEN <<>>
            ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m

Limb(m, k) == IF k \in 1..Len(m) THEN m[k] ELSE 0

RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(a, b, k) == IF k = 0 THEN 0
                     ELSE IF Limb(a, k) < Limb(b, k) THEN -1
                     ELSE IF Limb(a, k) > Limb(b, k) THEN 1
                     ELSE MCmpFrom(a, b, k - 1)
MCmp(a, b) == MCmpFrom(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))

RECURSIVE MAddFrom(_, _, _, _, _)
MAddFrom(a, b, k, c, acc) ==
  IF k > Len(a) /\ k > Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == Limb(a, k) + Limb(b, k) + c
       IN  MAddFrom(a, b, k + 1, t \div Base, Append(acc, t % Base))
MAdd(a, b) == MAddFrom(a, b, 1, 0, <<>>)

RECURSIVE MSubFrom(_, _, _, _, _)          \* a >= b
MSubFrom(a, b, k, c, acc) ==
  IF k > Len(a) THEN Strip(acc)
  ELSE LET t == Limb(a, k) - Limb(b, k) - c
       IN  MSubFrom(a, b, k + 1, IF t < 0 THEN 1 ELSE 0, Append(acc, (t + Base) % Base))
MSub(a, b) == MSubFrom(a, b, 1, 0, <<>>)

RECURSIVE MScaleFrom(_, _, _, _, _)        \* a * s, 0 <= s < Base
MScaleFrom(a, s, k, c, acc) ==
  IF k > Len(a) THEN Strip(IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == a[k] * s + c
       IN  MScaleFrom(a, s, k + 1, t \div Base, Append(acc, t % Base))
MScale(a, s) == MScaleFrom(a, s, 1, 0, <<>>)

MShift(a, n) == IF a = <<>> THEN <<>> ELSE [k \in 1..n |-> 0] \o a

RECURSIVE MMulFrom(_, _, _, _)
MMulFrom(a, b, k, acc) ==
  IF k > Len(b) THEN acc
  ELSE MMulFrom(a, b, k + 1, MAdd(acc, MShift(MScale(a, b[k]), k - 1)))
MMul(a, b) == MMulFrom(a, b, 1, <<>>)

MDrop(a, n) == IF Len(a) <= n THEN <<>> ELSE SubSeq(a, n + 1, Len(a))
MKeep(a, n) == Strip(IF Len(a) <= n THEN a ELSE SubSeq(a, 1, n))

\* schoolbook long division, one limb of the quotient at a time
RECURSIVE QDigit(_, _, _, _)               \* largest q in lo..hi with b*q <= r
QDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN  IF MCmp(MScale(b, m), r) <= 0 THEN QDigit(r, b, m, hi)
           ELSE QDigit(r, b, lo, m - 1)

RECURSIVE MDivFrom(_, _, _, _, _)
MDivFrom(a, b, k, r, q) ==
  IF k = 0 THEN Strip(q)
  ELSE LET r1 == Strip(<<a[k]>> \o r)
           d  == QDigit(r1, b, 0, Base - 1)
       IN  MDivFrom(a, b, k - 1, MSub(r1, MScale(b, d)), <<d>> \o q)
MDiv(a, b) == MDivFrom(a, b, Len(a), <<>>, <<>>)

---------------------------------------------------------------------------
(* Signed fixed-point numbers. *)
Sgn(x) == x[1]
Mag(x) == Tail(x)
Mk(s, m) == IF m = <<>> THEN FxZero ELSE <<s>> \o m

FNeg(x) == Mk(-Sgn(x), Mag(x))                                        \* (+)
FAbs(x) == IF Sgn(x) < 0 THEN FNeg(x) ELSE x                           \* (+)

Add(x, y) ==                                                         \* (+)
  IF Sgn(x) = 0 THEN y ELSE IF Sgn(y) = 0 THEN x
  ELSE IF Sgn(x) = Sgn(y) THEN Mk(Sgn(x), MAdd(Mag(x), Mag(y)))
  ELSE LET c == MCmp(Mag(x), Mag(y))
       IN  IF c = 0 THEN FxZero
           ELSE IF c > 0 THEN Mk(Sgn(x), MSub(Mag(x), Mag(y)))
           ELSE Mk(Sgn(y), MSub(Mag(y), Mag(x)))
Sub(x, y) == Add(x, FNeg(y))                                          \* (+)

\* product and quotient, truncated towards zero at 10^-24
Mul(x, y) == Mk(Sgn(x) * Sgn(y), MDrop(MMul(Mag(x), Mag(y)), FracLimbs))   \* (+)
Div(x, y) == Mk(Sgn(x) * Sgn(y), MDiv(MShift(Mag(x), FracLimbs), Mag(y)))  \* (+)

Cmp(x, y) ==                                                         \* (+)
  IF Sgn(x) # Sgn(y) THEN (IF Sgn(x) < Sgn(y) THEN -1 ELSE 1)
  ELSE Sgn(x) * MCmp(Mag(x), Mag(y))
Lt(x, y) == Cmp(x, y) < 0
Le(x, y) == Cmp(x, y) <= 0

RECURSIVE MOfInt(_)
MOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MOfInt(n \div Base)

\* the integer n (|n| < 2^31) as a fixed-point number
I(n) == IF n = 0 THEN FxZero                                         \* (+)
        ELSE Mk(IF n < 0 THEN -1 ELSE 1,
                MShift(MOfInt(IF n < 0 THEN -n ELSE n), FracLimbs))

Pow10M(e) == MShift(<<CASE e % 4 = 0 -> 1 [] e % 4 = 1 -> 10
                        [] e % 4 = 2 -> 100 [] OTHER -> 1000>>, e \div 4)

\* the decimal literal  (hi * 10^9 + lo) / 10^e , 0 <= lo < 10^9, e <= 24;
\* the sign is that of hi, or of sg when hi = 0
Dec(sg, hi, lo, e) ==                                                \* (+)
  Mk(sg, MMul(MAdd(MMul(MOfInt(hi), Pow10M(9)), MOfInt(lo)), Pow10M(24 - e)))

\* floor of x as a TLC integer (x must be small enough)
RECURSIVE MToInt(_)
MToInt(m) == IF m = <<>> THEN 0 ELSE m[1] + Base * MToInt(Tail(m))
FloorInt(x) ==                                                       \* (+)
  LET t == MToInt(MDrop(Mag(x), FracLimbs))
      f == MKeep(Mag(x), FracLimbs) # <<>>
  IN  IF Sgn(x) >= 0 THEN t ELSE IF f THEN -t - 1 ELSE -t

\* floor as a fixed-point number (no size limit)
Floor(x) ==                                                          \* (+)
  LET t == MDrop(Mag(x), FracLimbs)
      f == MKeep(Mag(x), FracLimbs) # <<>>
      T == IF t = <<>> THEN FxZero ELSE Mk(Sgn(x), MShift(t, FracLimbs))
  IN  IF Sgn(x) < 0 /\ f THEN Sub(T, I(1)) ELSE T

\* integer square root by bisection on magnitudes: floor(sqrt(x)) at 10^-24
RECURSIVE MBis(_, _, _)
MHalf(m) == MDiv(m, <<2>>)
MBis(n, lo, hi) ==                         \* lo^2 <= n < hi^2
  IF MCmp(MSub(hi, lo), <<1>>) <= 0 THEN lo
  ELSE LET c == MHalf(MAdd(lo, hi))
       IN  IF MCmp(MMul(c, c), n) <= 0 THEN MBis(n, c, hi) ELSE MBis(n, lo, c)
Sqrt(x) ==                                                           \* (+)
  IF Sgn(x) <= 0 THEN FxZero
  ELSE LET n == MShift(Mag(x), FracLimbs)
       IN  Mk(1, MBis(n, <<>>, MShift(<<1>>, (Len(n) + 1) \div 2 + 1)))
=============================================================================
