-------------------------------- MODULE Rest2 --------------------------------
(***************************************************************************)
(* The two-band REST2 model (Gueymard 2003, 2008) as far as pysolar.rest   *)
(* implements it.  hi is TRUE for the band 290-700 nm.                     *)
(***************************************************************************)
EXTENDS Irradiance
LOCAL INSTANCE Integers

\* decimal constants: P(n, e) = n / 10^e, N(n, e) = -n / 10^e
P(n, e) == Dec(1, 0, n, e)
N(n, e) == Dec(-1, 0, n, e)
\* a + b x + c x^2
Quad(a, b, c, x) == Add(a, Mul(x, Add(b, Mul(c, x))))
OnePlus(x) == Add(One, x)
Pow15(x) == Mul(x, Sqrt(x))                                \* x^1.5

AerosolForward(alt) ==
  Sub(One, Exp(Sub(N(6931, 4), Mul(P(18326, 4), SinD(alt)))))
AerosolDepth(beta, wavelength, alpha) == Mul(beta, Power(wavelength, FNeg(alpha)))
AerosolScatterCorrection(hi, ma, tau) ==
  IF hi THEN
    LET g0 == Div(Quad(P(3715, 3), P(368, 3), P(36294, 6), ma), OnePlus(Mul(P(9391, 7), Sq(ma))))
        g1 == Div(Quad(N(164, 3), N(72567, 5), P(20701, 5), ma), OnePlus(Mul(P(1901, 6), Sq(ma))))
        g2 == Div(Quad(N(52288, 6), P(31902, 5), P(17871, 5), ma), OnePlus(Mul(P(69592, 7), Sq(ma))))
    IN  Div(Add(g0, Mul(g1, tau)), OnePlus(Mul(g2, tau)))
  ELSE
    LET h0 == Div(Quad(P(34352, 4), P(65267, 5), P(34328, 8), ma), OnePlus(Mul(P(34388, 6), Pow15(ma))))
        h1 == Div(Quad(P(1231, 3), N(163853, 5), P(20667, 5), ma), OnePlus(Mul(P(1451, 4), Pow15(ma))))
        h2 == Div(Quad(P(8889, 4), N(55063, 5), P(50152, 5), ma), OnePlus(Mul(P(14865, 5), Pow15(ma))))
    IN  Div(Add(h0, Mul(h1, tau)), OnePlus(Mul(h2, tau)))
AerosolTransmittance(ma, tau) == Exp(FNeg(Mul(ma, tau)))
AerosolAlbedo(hi) == IF hi THEN P(92, 2) ELSE P(84, 2)
AerosolScatterTransmittance(hi, ma, tau) == Exp(FNeg(Mul(ma, Mul(AerosolAlbedo(hi), tau))))

AerosolWavelength(hi, ma, alpha, beta) ==
  LET ua == Ln(OnePlus(Mul(ma, beta))) IN
  IF hi THEN
    LET d0 == Sub(P(57664, 5), Mul(P(24743, 6), alpha))
        d1 == Div(Quad(P(93942, 6), N(2269, 4), P(12848, 5), alpha), OnePlus(Mul(P(6418, 4), alpha)))
        d2 == Div(Quad(N(93819, 6), P(36668, 5), N(12775, 5), alpha), OnePlus(Mul(N(11651, 5), alpha)))
        d3 == Div(Mul(alpha, Quad(P(15232, 5), N(87214, 6), P(12664, 6), alpha)),
                  Quad(One, N(90454, 5), P(26167, 5), alpha))
    IN  Div(Quad(d0, d1, d2, ua), OnePlus(Mul(d3, Sq(ua))))
  ELSE
    LET e0 == Div(Quad(P(1183, 3), N(22989, 6), P(20829, 6), alpha), OnePlus(Mul(P(11133, 5), alpha)))
        e1 == Div(Quad(N(50003, 5), N(18329, 5), P(23835, 5), alpha), OnePlus(Mul(P(16756, 4), alpha)))
        e2 == Div(Quad(N(50001, 5), P(11414, 4), P(83589, 7), alpha), OnePlus(Mul(P(11168, 3), alpha)))
        e3 == Div(Quad(N(70003, 5), N(73587, 5), P(51509, 5), alpha), OnePlus(Mul(P(47665, 4), alpha)))
    IN  Div(Quad(e0, e1, e2, ua), OnePlus(Mul(e3, ua)))

GasTransmittance(hi, m) ==
  IF hi THEN Div(Quad(One, P(95885, 5), P(12871, 6), m), Quad(One, P(96321, 5), P(15455, 6), m))
  ELSE Div(Quad(One, P(27284, 5), N(63699, 8), m), OnePlus(Mul(P(30306, 5), m)))
GroundAlbedo == P(15, 2)
NitrogenTransmittance(hi, mw, un) ==
  IF ~hi THEN One
  ELSE LET g1 == Div(Quad(P(17499, 5), P(41654, 3), N(21464, 1), un), OnePlus(Mul(I(22295), Sq(un))))
           g2 == Div(Mul(un, Add(N(12134, 4), Mul(P(59324, 3), un))), OnePlus(Mul(P(88478, 1), Sq(un))))
           g3 == Div(Quad(P(17499, 5), P(61658, 3), P(91964, 1), un), OnePlus(Mul(I(74109), Sq(un))))
       IN  FMin(One, Div(Quad(One, g1, g2, mw), OnePlus(Mul(g3, mw))))
OzoneTransmittance(hi, mo, uo) ==
  IF ~hi THEN One
  ELSE LET f1 == Div(Mul(uo, Sub(P(10979, 3), Mul(P(85421, 4), uo))), Quad(One, P(20115, 4), P(40189, 3), uo))
           f2 == Div(Mul(uo, Sub(N(27589, 6), Mul(P(5138, 6), uo))), Quad(One, N(24857, 4), P(13942, 3), uo))
           f3 == Div(Mul(uo, Sub(P(10995, 3), Mul(P(55001, 4), uo))), Quad(One, P(16784, 4), P(42406, 3), uo))
       IN  Div(Quad(One, f1, f2, mo), OnePlus(Mul(f3, mo)))
RayleighForward(hi, m) == IF hi THEN Mul(Half, Quad(P(89013, 5), N(49558, 6), P(45721, 9), m)) ELSE Half
RayleighTransmittance(hi, m) ==
  IF hi THEN Div(Quad(One, P(18169, 4), P(33454, 6), m), Quad(One, P(2063, 3), P(31978, 5), m))
  ELSE Div(Sub(One, Mul(P(10394, 6), m)), Sub(One, Mul(P(11042, 8), Sq(m))))
SkyAlbedo(hi, a, b) ==
  IF hi THEN
    Div(Add(Add(P(13363, 5), Mul(P(77358, 8), a)),
            Div(Mul(b, Add(P(37567, 5), Mul(P(22946, 5), a))), Sub(One, Mul(P(10832, 5), a)))),
        OnePlus(Div(Mul(b, Add(P(84057, 5), Mul(P(68683, 5), a))), Sub(One, Mul(P(8158, 5), a)))))
  ELSE
    Div(Add(Add(P(10191, 6), Mul(P(85547, 8), a)),
            Div(Mul(b, Add(P(14618, 5), Mul(P(62758, 6), a))), Sub(One, Mul(P(19402, 5), a)))),
        OnePlus(Div(Mul(b, Add(P(58101, 5), Mul(P(17426, 5), a))), Sub(One, Mul(P(17586, 5), a)))))
WaterCoefficients(hi, w) ==
  IF hi THEN << Div(Mul(w, Add(P(65445, 6), Mul(P(29901, 8), w))), OnePlus(Mul(P(12728, 4), w))),
                Div(Mul(w, Add(P(65687, 6), Mul(P(13218, 7), w))), OnePlus(Mul(P(12008, 4), w))) >>
  ELSE << Div(Mul(w, Quad(P(19566, 3), N(16506, 4), P(10672, 4), w)), Quad(One, P(54248, 4), P(16005, 4), w)),
          Div(Mul(w, Quad(P(50158, 5), N(14732, 5), P(47584, 6), w)), Quad(One, P(11811, 4), P(10699, 4), w)),
          Div(Mul(w, Quad(P(21286, 3), N(39232, 5), P(12692, 4), w)), Quad(One, P(48318, 4), P(1412, 3), w)),
          Div(Mul(w, Quad(P(70992, 5), N(23155, 5), P(96514, 6), w)), Quad(One, P(44907, 5), P(75425, 5), w)) >>
WaterTransmittance(hi, mw, w) ==
  LET c == WaterCoefficients(hi, w) IN
  IF hi THEN Div(OnePlus(Mul(c[1], mw)), OnePlus(Mul(c[2], mw)))
  ELSE Div(Quad(One, c[1], c[2], mw), Quad(One, c[3], c[4], mw))

\* optical masses: 1 / (cos Z + a Z^b / (c - Z)^d), Z in degrees
OpticalMass(alt, a, b, c, d) ==
  LET z == Sub(I(90), alt)
      t == IF z = FxZero THEN FxZero ELSE Div(Mul(a, Power(z, b)), Power(Sub(c, z), d))
  IN  Div(One, Add(SinD(alt), t))
StdMillibars == P(101325, 2)
MassRayleigh(alt, p) ==
  Mul(Div(p, StdMillibars), OpticalMass(alt, P(48353, 5), P(95846, 6), P(96741, 3), P(1754, 3)))
MassOzone(alt)   == OpticalMass(alt, P(10651, 4), P(6379, 4), P(1018, 1), P(22694, 4))
MassWater(alt)   == OpticalMass(alt, P(10648, 5), P(11423, 5), P(93781, 3), P(19203, 4))
MassAerosol(alt) == OpticalMass(alt, P(16851, 5), P(18198, 5), P(95318, 3), P(19542, 4))

BandFlux(hi) == IF hi THEN P(6354, 1) ELSE P(7097, 1)
\* q: the record of atmospheric amounts
DirectNormal(hi, alt, q) ==
  LET ma == MassAerosol(alt)  mo == MassOzone(alt)  mw == MassWater(alt)
      mr == MassRayleigh(alt, q.p)
      tau == AerosolDepth(q.beta, AerosolWavelength(hi, ma, q.alpha, q.beta), q.alpha)
  IN  Mul(BandFlux(hi), Mul(RayleighTransmittance(hi, mr), Mul(GasTransmittance(hi, mr),
      Mul(OzoneTransmittance(hi, mo, q.uo), Mul(NitrogenTransmittance(hi, mw, q.un),
      Mul(WaterTransmittance(hi, mw, q.w), AerosolTransmittance(ma, tau)))))))
BroadbandDirectNormal(alt, q) == Add(DirectNormal(TRUE, alt, q), DirectNormal(FALSE, alt, q))
Beam(hi, alt, q) == Mul(DirectNormal(hi, alt, q), SinD(alt))
BroadbandBeam(alt, q) == Mul(BroadbandDirectNormal(alt, q), SinD(alt))
Backscattered(hi, eb, edp, alpha, beta) ==
  LET s == Mul(GroundAlbedo, SkyAlbedo(hi, alpha, beta)) IN Div(Mul(s, Add(eb, edp)), Sub(One, s))
=============================================================================
