----------------------------- MODULE Published -----------------------------
(***************************************************************************)
(* The values the modules publish, and the series and polynomials built    *)
(* from them.  A recorded value is a number, [tup |-> values] or a record  *)
(* of values by band.                                                      *)
(***************************************************************************)
EXTENDS Stubs, Approx
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

Scalars ==
  [ constants |-> [ earth_radius |-> EarthRadius, earth_axis_inclination |-> EarthTilt, seconds_per_day |-> D86400,
                    standard_pressure |-> StdPressure, standard_temperature |-> StdTemperature, celsius_offset |-> Dec(1, 0, 27315, 2),
                    earth_temperature_lapse_rate |-> LapseRate, air_gas_constant |-> GasConstant, earth_gravity |-> Gravity,
                    earth_atmosphere_molar_mass |-> MolarMass ],
    util |-> [ AM_default |-> I(2), TL_default |-> I(1), SC_default |-> I(1367), TY_default |-> I(365), elevation_default |-> FxZero ],
    solartime |-> [ leap_seconds_base_year |-> I(1972), delta_t_base_year |-> I(DeltaTBaseYear), delta_t_base_month |-> I(DeltaTBaseMonth) ] ]

\* year by year: a leap second at the end of June, of December
LeapRow(y) == << IF <<y, 6>> \in LeapSecondDates THEN 1 ELSE 0, IF <<y, 12>> \in LeapSecondDates THEN 1 ELSE 0 >>
\* the row of year DeltaTBaseYear + k - 1 of the monthly table, which begins and ends within a year
DeltaRow(k) ==
  LET first == IF k = 1 THEN 1 ELSE 12 * (k - 1) - DeltaTBaseMonth + 2
      last == 12 * k - DeltaTBaseMonth + 1
  IN  SubSeq(DeltaTValues, first, IF last > Len(DeltaTValues) THEN Len(DeltaTValues) ELSE last)
DeltaRows == (Len(DeltaTValues) + DeltaTBaseMonth + 10) \div 12

Number(v, x) == Has(v, "n") /\ NearRel(v.n, x, Dec(1, 0, 1, 15))
Row(v, xs) == Has(v, "tup") /\ Len(v.tup) = Len(xs) /\ \A k \in 1..Len(xs) : Number(v.tup[k], xs[k])
Rows(v, xss) == Has(v, "tup") /\ Len(v.tup) = Len(xss) /\ \A k \in 1..Len(xss) : Row(v.tup[k], xss[k])
Terms(v, table) == Has(v, "tup") /\ Len(v.tup) = Len(table) /\ \A k \in 1..Len(table) : Rows(v.tup[k], table[k])
Integral(xs) == [j \in 1..Len(xs) |-> I(xs[j])]

PublishedOk(mod, name, v) ==
  CASE mod \in DOMAIN Scalars /\ name \in DOMAIN Scalars[mod] -> Number(v, Scalars[mod][name])
    [] name = "heliocentric_longitude_coeffs" -> Terms(v, TermsL)
    [] name = "heliocentric_latitude_coeffs" -> Terms(v, TermsB)
    [] name = "sun_earth_distance_coeffs" -> Terms(v, TermsR)
    [] name = "aberration_sin_terms" -> Rows(v, [k \in 1..Len(NutArgs) |-> Integral(NutArgs[k])])
    [] name = "nutation_coefficients" -> Rows(v, NutCoef)
    [] name = "leap_seconds_adjustments" ->
         /\ Has(v, "tup")
         /\ Len(v.tup) >= 45                                      \* up to the last leap second at least
         /\ \A k \in 1..Len(v.tup) : Row(v.tup[k], Integral(LeapRow(1971 + k)))
    [] name = "delta_t" -> Rows(v, [k \in 1..DeltaRows |-> [j \in 1..Len(DeltaRow(k)) |-> Mul(I(DeltaRow(k)[j]), Dec(1, 0, 1, 4))]])
    [] OTHER -> TRUE

---------------------------------------------------------------------------
(* get_coeff: the series of any table, at any millennium.  The cosines are *)
(* as exact as their arguments, and the sums as their largest parts.       *)
PartsOf(grp, x) == FoldLeft(LAMBDA acc, t : Add(acc, Mul(FAbs(t[1]), Sum3(One, FAbs(t[2]), FAbs(Mul(t[3], x))))), FxZero, grp)
Allowance(table, x) ==
  Mul(Dec(1, 0, 2, 15), FoldLeft(LAMBDA acc, grp : Add(PartsOf(grp, x), Mul(acc, FAbs(x))), FxZero, Reverse(table)))
SeriesOk(table, x, r) == Has(r, "n") /\ Near(r.n, Series(table, x), Add(Allowance(table, x), Dec(1, 0, 1, 15)))

\* get_aberration_coeffs: the polynomials by name
Polynomial(name, t) ==
  CASE name = "MeanElongationOfMoon" -> MeanElongationOfMoon(t)
    [] name = "MeanAnomalyOfSun" -> MeanAnomalyOfSun(t)
    [] name = "MeanAnomalyOfMoon" -> MeanAnomalyOfMoon(t)
    [] name = "ArgumentOfLatitudeOfMoon" -> ArgumentOfLatitude(t)
    [] name = "LongitudeOfAscendingNode" -> AscendingNode(t)
PolynomialNames == { "MeanElongationOfMoon", "MeanAnomalyOfSun", "MeanAnomalyOfMoon", "ArgumentOfLatitudeOfMoon", "LongitudeOfAscendingNode" }
PolynomialOk(name, t, r) ==
  name \in PolynomialNames => Has(r, "n") /\ Near(r.n, Polynomial(name, t), Mul(Dec(1, 0, 2, 15), Add(I(500), FAbs(Mul(I(500000), t)))))
=============================================================================
