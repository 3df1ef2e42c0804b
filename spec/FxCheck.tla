------------------------------ MODULE FxCheck ------------------------------
(***************************************************************************)
(* Checks the arithmetic the whole specification rests on.                 *)
(*  1. Identities that pin the elementary functions (run with the Java     *)
(*     overrides and, on a smaller grid, with the pure TLA+ definitions).  *)
(*  2. It prints every computed value; harness/setup.py runs it with and   *)
(*     without the overrides and demands identical output.                 *)
(***************************************************************************)
EXTENDS FxMath, Integers, Sequences, TLC
CONSTANT K                                \* number of grid points
VARIABLES n, v
Tol == Dec(1, 0, 1, 18)
\* a spread of magnitudes and signs
X(k) == LET m == MulI(k * k * k - 40 * k * k, Dec(1, 1234567, 891234567, 9))
        IN  IF k % 3 = 0 THEN DivI(m, 1000) ELSE IF k % 3 = 1 THEN DivI(m, 1234567) ELSE DivI(m, -77777)
U(k) == DivI(I(2 * k - K), K)             \* in [-1, 1]

Vals(k) ==
  LET x == X(k)  u == U(k)  a == FAbs(x)
      s == Sin(x)  c == Cos(x)
  IN  << x, s, c, Atan2(s, c), Atan2(c, s), Asin(u), Acos(u), Exp(MulI(5, u)), Ln(Add(a, Dec(1, 0, 1, 9))),
         Sqrt(a), Floor(x), I(FloorInt(u)), FMod(x, D360), Div(x, Add(One, Sq(u))), Sub(x, u),
         SinD(x), CosD(x), Power(Add(a, One), u), IPow(u, 5), Cmp(x, u), I(k - 7),
         Mul(x, x), FNeg(x), Dec(-1, k, 123456789 * (k % 8), k % 25) >>

Init == n \in 0..(K - 1) /\ v = <<>>
Next == v = <<>> /\ n' = n /\ v' = Vals(n)
Spec == Init /\ [][Next]_<<n, v>>

Identities ==
  v = <<>> \/
  LET k == n  x == X(k)  u == U(k)  s == v[2]  c == v[3] IN
  /\ Near(Add(Sq(s), Sq(c)), One, Tol)
  /\ Near(Sin(MulI(2, x)), MulI(2, Mul(s, c)), Tol)
  /\ Near(Sin(v[4]), s, Tol) /\ Near(Cos(v[4]), c, Tol)
  /\ Near(Add(Sin(Add(x, HalfPi)), FNeg(c)), FxZero, Tol)
  /\ Near(Sin(v[6]), u, Tol) /\ Near(Cos(v[7]), u, Tol)
  /\ Near(Ln(v[8]), MulI(5, u), Tol)
  /\ Near(Mul(Exp(u), Exp(FNeg(u))), One, Tol)
  /\ Near(Sq(v[10]), FAbs(x), Mul(Dec(1, 0, 1, 15), Add(One, FAbs(x))))
  /\ Le(v[11], x) /\ Lt(x, Add(v[11], One))
  /\ Near(Sub(SinD(x), Sin(Rad(x))), FxZero, Dec(1, 0, 1, 14))
  /\ Near(Mul(v[14], Add(One, Sq(u))), x, Dec(1, 0, 1, 14))
  /\ Near(v[24], v[24], FxZero)
\* printed on one line, for the comparison of the overrides with the definitions
Show == v = <<>> \/ PrintT("FX|" \o ToString(<<n, v>>))

\* spot values
ASSUME Near(Sin(Div(Pi, I(6))), Half, Tol)
ASSUME Near(Exp(One), Add(Dec(1, 271828182, 845904523, 17), Dec(1, 0, 5360287, 24)), Tol)
ASSUME Near(Atan2(One, One), Div(Pi, I(4)), Tol)
ASSUME Near(Atan2(I(-1), I(-1)), Mul(I(-3), Div(Pi, I(4))), Tol)
ASSUME Near(Ln(Two), Ln2, Tol)
ASSUME Sqrt(Two) = Add(Dec(1, 141421356, 237309504, 17), Dec(1, 0, 8801688, 24))
ASSUME FloorInt(Dec(-1, 0, 5, 1)) = -1 /\ FloorInt(Dec(1, 0, 5, 1)) = 0 /\ FloorInt(I(-3)) = -3
ASSUME Mod360(I(-1)) = I(359) /\ AngDiff(I(1), I(359)) = I(2)
=============================================================================
