------------------------------- MODULE FxMath -------------------------------
(***************************************************************************)
(* Elementary functions on the fixed-point reals of Fx: range reduction    *)
(* followed by power series.  Absolute error below 1e-15 on the domains    *)
(* used here (FxCheck.tla states and checks identities that pin them).     *)
(***************************************************************************)
EXTENDS Fx
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

One  == I(1)
Two  == I(2)
Half == Dec(1, 0, 5, 1)
Pi     == Add(Dec(1, 314159265, 358979323, 17), Dec(1, 0, 8462643, 24))
TwoPi  == Mul(Two, Pi)
HalfPi == Div(Pi, Two)
TwoOverPi == Div(Two, Pi)
Ln2    == Add(Dec(1, 69314718, 55994530, 17), Dec(1, 0, 9417232, 24))

FMin(x, y) == IF Le(x, y) THEN x ELSE y
FMax(x, y) == IF Le(x, y) THEN y ELSE x
Sq(x) == Mul(x, x)
Sum3(x, y, z) == Add(Add(x, y), z)
MulI(n, x) == Mul(I(n), x)
DivI(x, n) == Div(x, I(n))

\* c[1] + c[2] x + c[3] x^2 + ... (c given highest order first)
Horner(cs, x) == FoldLeft(LAMBDA acc, c : Add(c, Mul(acc, x)), FxZero, cs)  \* (+)

RECURSIVE Factorial(_)
Factorial(n) == IF n = 0 THEN One ELSE MulI(n, Factorial(n - 1))
\* Taylor coefficients in r^2, highest order first
SinCs == [j \in 1..10 |-> LET k == 10 - j IN
            Div(IF k % 2 = 0 THEN One ELSE I(-1), Factorial(2 * k + 1))]
CosCs == [j \in 1..10 |-> LET k == 10 - j IN
            Div(IF k % 2 = 0 THEN One ELSE I(-1), Factorial(2 * k))]

SinR(r) == Mul(r, Horner(SinCs, Sq(r)))       \* |r| <= pi/4
CosR(r) == Horner(CosCs, Sq(r))

\* sin(x + q0*pi/2)
SinQ(x, q0) ==                                                       \* (+)
  LET fq == Floor(Add(Mul(x, TwoOverPi), Half))
      r  == Sub(x, Mul(fq, HalfPi))
      q  == (FloorInt(fq) + q0) % 4
  IN  CASE q = 0 -> SinR(r)
        [] q = 1 -> CosR(r)
        [] q = 2 -> FNeg(SinR(r))
        [] OTHER -> FNeg(CosR(r))
Sin(x) == SinQ(x, 0)
Cos(x) == SinQ(x, 1)
Tan(x) == Div(Sin(x), Cos(x))

\* x modulo the positive number m, in [0, m)
FMod(x, m) == Sub(x, Mul(m, Floor(Div(x, m))))
D360 == I(360)
D180 == I(180)
Mod360(x) == FMod(x, D360)
RadPerDeg == Div(Pi, D180)
DegPerRad == Div(D180, Pi)
Rad(d) == Mul(d, RadPerDeg)
Deg(r) == Mul(r, DegPerRad)
\* trigonometry of degrees: reduce exactly first
SinD(d) == Sin(Rad(Mod360(d)))
CosD(d) == Cos(Rad(Mod360(d)))
TanD(d) == Div(SinD(d), CosD(d))

\* difference of two angles in degrees, wrapped to [-180, 180)
AngDiff(a, b) == Sub(Mod360(Add(Sub(a, b), D180)), D180)

\* atan on |t| <= 1/16 by series; two half-angle steps bring any t there
AtanCs == [j \in 1..8 |-> LET k == 8 - j IN
             Div(IF k % 2 = 0 THEN One ELSE I(-1), I(2 * k + 1))]
HalfT(t) == Div(t, Add(One, Sqrt(Add(One, Sq(t)))))
AtanUnit(t) ==                                           \* |t| <= 1  (+)
  LET h == HalfT(HalfT(HalfT(HalfT(t))))
  IN  MulI(16, Mul(h, Horner(AtanCs, Sq(h))))
Atan(t) == IF Le(FAbs(t), One) THEN AtanUnit(t)
           ELSE IF Sgn(t) > 0 THEN Sub(HalfPi, AtanUnit(Div(One, t)))
           ELSE Sub(AtanUnit(Div(One, FNeg(t))), HalfPi)

\* four-quadrant arctangent in (-pi, pi]; Atan2(0, 0) = 0 by convention
Atan2(y, x) ==
  IF Le(FAbs(y), FAbs(x))
  THEN IF Sgn(x) = 0 THEN FxZero
       ELSE IF Sgn(x) > 0 THEN AtanUnit(Div(y, x))
       ELSE IF Sgn(y) >= 0 THEN Add(AtanUnit(Div(y, x)), Pi)
       ELSE Sub(AtanUnit(Div(y, x)), Pi)
  ELSE IF Sgn(y) > 0 THEN Sub(HalfPi, AtanUnit(Div(x, y)))
       ELSE Sub(FNeg(HalfPi), AtanUnit(Div(x, y)))

Clamp1(x) == FMax(I(-1), FMin(One, x))
Asin(x) == LET c == Clamp1(x) IN Atan2(c, Sqrt(Mul(Sub(One, c), Add(One, c))))
Acos(x) == Sub(HalfPi, Asin(x))

ExpCs == [j \in 1..16 |-> Div(One, Factorial(16 - j))]
ExpUnit(r) == Horner(ExpCs, r)             \* |r| <= ln(2)/2        (+)
RECURSIVE TwoTo(_)                        \* (+)
TwoTo(n) == IF n = 0 THEN One ELSE IF n > 0 THEN Mul(Two, TwoTo(n - 1))
            ELSE Div(TwoTo(n + 1), Two)
\* e^x; results below 1e-24 vanish; x must stay below about 2^31
Exp(x) ==
  IF Lt(x, I(-60)) THEN FxZero
  ELSE LET fq == Floor(Add(Div(x, Ln2), Half))
           r  == Sub(x, Mul(fq, Ln2))
       IN  Mul(ExpUnit(r), TwoTo(FloorInt(fq)))

\* natural logarithm of x > 0: x = m * 2^k, m in [3/4, 3/2); series in s = (m-1)/(m+1)
LnCs == [j \in 1..14 |-> Div(Two, I(2 * (14 - j) + 1))]
LnUnit(m) ==                                                         \* (+)
  LET s == Div(Sub(m, One), Add(m, One)) IN Mul(s, Horner(LnCs, Sq(s)))
RECURSIVE LnStep(_, _)
LnStep(m, k) ==
  IF Lt(m, Dec(1, 0, 75, 2)) THEN LnStep(Mul(m, Two), k - 1)
  ELSE IF Le(Dec(1, 0, 15, 1), m) THEN LnStep(Div(m, Two), k + 1)
  ELSE Add(LnUnit(m), MulI(k, Ln2))
Ln(x) == LnStep(x, 0)
Power(x, y) == Exp(Mul(y, Ln(x)))           \* x > 0

RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN One ELSE Mul(x, IPow(x, n - 1))

\* |x - y| <= tol
Near(x, y, tol) == Le(FAbs(Sub(x, y)), tol)
\* |x - y| <= tol * max(1, |y|)
NearRel(x, y, tol) == Le(FAbs(Sub(x, y)), Mul(tol, FMax(One, FAbs(y))))
=============================================================================
