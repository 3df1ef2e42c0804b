------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions.  A trace file holds sessions; each   *)
(* session is a sequence of events recorded from one process of the real   *)
(* code.  Every session is an initial state; every event is one step of    *)
(* the machine below, and the step's verdict says whether the event is     *)
(* one the specification allows in the state reached so far.               *)
(*                                                                         *)
(* State of the system while it is being used:                             *)
(*   mode  - the numeric backend in force                                  *)
(*   eph   - (bookkeeping) the ephemeris of the instant last computed      *)
(*   memo  - results seen so far: the functions have no other memory       *)
(*   gen   - the generator of simulate which is being asked                *)
(*   aside - the other ones in use, which wait until they are asked        *)
(*   stat  - running error statistics                                      *)
(*   amb   - the state of the process around the library                   *)
(*   procs - the backends of the processes in use; the first is this one   *)
(***************************************************************************)
EXTENDS Contract, Relations, Published, TLC, Json, IOUtils
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

Sessions == JsonDeserialize(IOEnv.TRACE_FILE).sessions

VARIABLES sid, pos, mode, eph, memo, gen, aside, stat, amb, procs, verdict
vars == <<sid, pos, mode, eph, memo, gen, aside, stat, amb, procs, verdict>>

NoEph == [key |-> <<>>]
NoGen == [kind |-> "none"]
Stat0 == [n |-> 0, sum |-> <<FxZero, FxZero>>, sq |-> <<FxZero, FxZero>>]

Init ==
  /\ sid \in 1..Len(Sessions)
  /\ pos = 0
  /\ mode = Sessions[sid].mode
  /\ eph = NoEph /\ memo = <<>> /\ gen = NoGen /\ aside = <<>> /\ stat = Stat0 /\ amb = <<>>
  /\ procs = << Sessions[sid].mode >>
  /\ verdict = "ok"

Ev == Sessions[sid].ev[pos + 1]

\* the ephemeris an event needs
NeedsEph(e) == \/ e.t = "call" /\ e.op \in EphOps
               \/ e.t = "yield"
EphKey(e) == IF e.t = "yield" THEN Instant(e.time.dt) ELSE Instant(Bind(e)["when"].dt)
EphFor(e) == IF ~NeedsEph(e) THEN eph
             ELSE LET k == EphKey(e) IN IF eph.key = k THEN eph ELSE Ephemeris(k)

---------------------------------------------------------------------------
(* A call of a public function.  e.mut is there if an argument was changed. *)
\* under math every scalar is a plain Python number and arrays are refused
PlainNumber(r) == Has(r, "k") => r.k \in {"float", "int"}
RECURSIVE Plain(_)
Plain(r) == IF Has(r, "n") THEN PlainNumber(r)
            ELSE IF Has(r, "tup") THEN \A k \in 1..Len(r.tup) : Plain(r.tup[k])
            ELSE ~Has(r, "arr")
JudgeEvCall(e, ep) ==
  IF ~WellFormed(e) THEN "bad:harness"
  ELSE IF IsVec(e)
       THEN IF mode = "math" /\ e.op \notin {"diffuse_ratio", "clear_index"} THEN Clause("arrays-refused", Has(e.r, "e")) ELSE JudgeVec(e, ep)
       ELSE FirstBad(<< JudgeCall(e, ep), IF mode = "math" /\ ~Has(e, "npin") THEN Clause("plain-number", Plain(e.r)) ELSE "ok" >>)
CallEv(e, ep) ==
  /\ \E v \in {JudgeEvCall(e, ep)} : verdict' = FirstBad(<< v, Clause("mutation", ~Has(e, "mut")) >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>

(* Switching the backend.  e.cur: numeric.current_mod afterwards.  Where   *)
(* numpy is not installed (e.nonp) choosing it is an ImportError.          *)
Switch(e) ==
  /\ IF Has(e, "nonp") /\ e.to = "numpy"
     THEN mode' = mode /\ verdict' = FirstBad(<< Clause("refused", Has(e, "e")), Clause("current_mod", e.cur = mode) >>)
     ELSE mode' = e.to /\ verdict' = IF Has(e, "e") THEN "bad:raised" ELSE Clause("current_mod", e.cur = e.to)
  /\ UNCHANGED <<memo, gen, stat>>

(* A call that must be refused: e.exc is the class that must be among the  *)
(* classes of the exception, as for a naive datetime, where it also says   *)
(* which parameter it was, and what was given for it.                      *)
Refused(e) ==
  /\ verdict' = FirstBad(<< Clause("refused", Has(e.r, "e") /\ \E k \in 1..Len(e.r.e) : e.r.e[k] = e.exc),
                            Clause("blames", Has(e, "blamed") => e.blamed), Clause("blames", e.exc = "NoTimeZoneInfoError" => Has(e, "blamed")) >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>

(* A call of a function that someone decorated with the check: e.given is  *)
(* what was given for the guarded parameters; e.same says that the         *)
(* function got the very arguments and its caller the very result, or who  *)
(* the refusal blames: only what is naive, and always if all the rest is   *)
(* aware.                                                                  *)
Guarded(e) ==
  /\ verdict' = IF \E k \in 1..Len(e.given) : e.given[k] # "aware"
                THEN FirstBad(<< Clause("ran", ~e.ran), Clause("refused", Has(e, "e") /\ \E k \in 1..Len(e.e) : e.e[k] = "ValueError"),
                                  Clause("blames", Has(e, "blamed") => e.blamed = "naive"),
                                  Clause("blames", (\A k \in 1..Len(e.given) : e.given[k] # "other") => Has(e, "blamed")) >>)
                ELSE FirstBad(<< Clause("ran", e.ran /\ ~Has(e, "e")), Clause("untouched", e.same), Clause("name", e.meta) >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>

(* A call with awkward arguments, of which only this is recorded: e.rw     *)
(* warnings by numpy's arithmetic.  The math backend has none to give.     *)
Awkward(e) ==
  /\ verdict' = Clause("numpy-in-use", mode = "math" => e.rw = 0)
  /\ UNCHANGED <<mode, memo, gen, stat>>

(* A call whose result is compared with earlier ones.  e.key identifies    *)
(* function and arguments; e.val is the exact result; e.mut says that an   *)
(* argument or a public table changed during the call.                     *)
Remember(e) ==
  /\ verdict' = IF e.mut THEN "bad:mutation"
                ELSE Clause("history", \A k \in 1..Len(memo) : memo[k][1] = e.key => memo[k][2] = e.val)
  /\ memo' = IF \E k \in 1..Len(memo) : memo[k][1] = e.key THEN memo ELSE Append(memo, <<e.key, e.val>>)
  /\ UNCHANGED <<mode, gen, stat>>

(* As Remember, for results that must agree to rounding.                   *)
RECURSIVE SameNumbers(_, _)
SameNumbers(x, y) ==
  CASE Has(x, "n") -> Has(y, "n") /\ NearRel(x.n, y.n, Mul(I(5), T(12)))
    [] Has(x, "tup") -> Has(y, "tup") /\ Len(x.tup) = Len(y.tup) /\ \A k \in 1..Len(x.tup) : SameNumbers(x.tup[k], y.tup[k])
    [] Has(x, "dt") -> Has(y, "dt") /\ Instant(x.dt) = Instant(y.dt)
    [] OTHER -> x = y
Agree(e) ==
  /\ verdict' = Clause("same-instant", \A k \in 1..Len(memo) : memo[k][1] = e.key => SameNumbers(memo[k][2], e.r))
  /\ memo' = IF \E k \in 1..Len(memo) : memo[k][1] = e.key THEN memo ELSE Append(memo, <<e.key, e.r>>)
  /\ UNCHANGED <<mode, gen, stat>>
Forget == memo' = <<>> /\ verdict' = "ok" /\ UNCHANGED <<mode, gen, stat>>

---------------------------------------------------------------------------
(* Generators of simulate.  Microseconds as fixed-point numbers.           *)
M6 == I(1000000)
MicrosOf(dt) == LET i == Instant(dt) IN Add(Mul(Add(MulI(i[1], D86400), I(i[2])), M6), I(i[3]))
\* the step in microseconds, to the nearest one (e.step in minutes)
StepMicros(step) == Floor(Add(Mul(step, I(60000000)), Half))
Steps(s) == LET span == Sub(MicrosOf(s.stop), MicrosOf(s.start))
            IN  IF Sgn(span) <= 0 THEN FxZero ELSE Floor(Div(Add(span, Half), StepMicros(s.step)))
Start(e) ==
  /\ gen' = [kind |-> e.kind, start |-> e.start.dt, stop |-> e.stop.dt, step |-> e.step.n, n |-> 0,
             a |-> IF e.kind = "simulate" THEN e.args ELSE <<>>]
  /\ verdict' = "ok"
  /\ UNCHANGED <<mode, memo, stat>>
TimeOk(e) == Has(e.time, "dt") /\ MicrosOf(e.time.dt) = Add(MicrosOf(gen.start), MulI(gen.n, StepMicros(gen.step)))
\* the offset of the start: ranges over a change of offset are not asked for
ZoneOk(e) == e.time.dt[8] = gen.start[8] /\ e.time.dt[9] = gen.start[9]
Proper(e) == Lt(I(gen.n), Steps(gen))
NextItem(e) ==
  /\ verdict' = FirstBad(<< Clause("count", Proper(e)), Clause("time", TimeOk(e)), Clause("zone", TimeOk(e) => ZoneOk(e)) >>)
  /\ gen' = [gen EXCEPT !.n = @ + 1]
  /\ UNCHANGED <<mode, memo, stat>>
Stop(e) ==
  /\ verdict' = Clause("count", I(gen.n) = Steps(gen))
  /\ gen' = NoGen
  /\ UNCHANGED <<mode, memo, stat>>

\* closed by its user before it was at its end
Close == verdict' = Clause("harness", gen.kind # "none") /\ gen' = NoGen /\ UNCHANGED <<mode, memo, stat>>
\* the user of several leaves number e.from (0: none) as it is and turns to number e.to
Turn(e) ==
  /\ aside' = (e.from :> gen) @@ aside
  /\ gen' = IF e.to \in DOMAIN aside THEN aside[e.to] ELSE NoGen
  /\ verdict' = "ok"
  /\ UNCHANGED <<mode, memo, stat>>

\* simulate_span: e.time, e.alt, e.azi, e.rad, e.shade
PosArgs(e) == [ p |-> << gen.a.lat, gen.a.lon, e.time, gen.a.elev, gen.a.temp, gen.a.press >>,
                op |-> "get_position", r |-> [tup |-> << e.azi, e.alt >>] ]
RoundInt(x) == FloorInt(Add(x, Half))
Tie(x) == Near(Sub(x, Floor(x)), Half, T(9))
ShadeOk(e) ==
  LET h == gen.a.horizon
      idx == (RoundInt(e.azi.n) % Len(h)) + 1
      idx2 == ((RoundInt(e.azi.n) - 1) % Len(h)) + 1
  IN  IsNum(e.shade) /\ (e.shade.n = h[idx] \/ (Tie(e.azi.n) /\ e.shade.n = h[idx2]))
RadOk(e) ==
  LET x == MulI(380, SinD(e.alt.n))
      limit(r) == 380 - r
      dir == DirectRadiation(UtcYearDay(Instant(e.time.dt)), e.alt.n)
      sunny == IsNum(e.rad) /\ Near(e.rad.n, dir, Add(T(9), Mul(T(10), dir)))
      dark == IsNum(e.rad) /\ e.rad.n = FxZero
      ok(r) == IF Lt(e.shade.n, I(limit(r))) THEN dark ELSE sunny
  IN  ok(RoundInt(x)) \/ (Tie(x) /\ ok(RoundInt(x) - 1))
\* e.alone: azimuth and altitude asked for by themselves, same place, time and air
Alone(e) == /\ IsNum(e.alone[1]) /\ IsNum(e.alone[2])
            /\ Near(e.alt.n, e.alone[2].n, T(11)) /\ Near(AngDiff(e.azi.n, e.alone[1].n), FxZero, T(11))
Yield(e, ep) ==
  /\ \E v \in { FirstBad(<< Clause("count", Proper(e)), Clause("time", TimeOk(e)), Clause("zone", TimeOk(e) => ZoneOk(e)) >>) } :
     \E w \in { IF v # "ok" THEN v ELSE JudgeEvCall(PosArgs(e), ep) } :
       verdict' = IF v # "ok" THEN v
                  ELSE FirstBad(<< Clause("shade", ShadeOk(e)), Clause("radiation", RadOk(e)), w, Clause("same-as-alone", Alone(e)) >>)
  /\ gen' = [gen EXCEPT !.n = @ + 1]
  /\ UNCHANGED <<mode, memo, stat>>

---------------------------------------------------------------------------
(* The demonstrations.  solar_test: the Sun over Boston for a day from now *)
(* on, every half hour, printed while it is up: time, altitude, azimuth    *)
(* and direct radiation.  gen.n counts the half hours gone by.             *)
DemoLat == Dec(1, 0, 42364908, 6)
DemoLon == Dec(-1, 0, 71112828, 6)
HalfHour(n) == Add(MicrosOf(gen.start), MulI(n, MulI(1800, M6)))
AtMicros(m) == LET s == Floor(Div(m, M6))  d == FloorInt(Div(s, D86400))
               IN  << d, FloorInt(Sub(s, MulI(d, D86400))), FloorInt(Sub(m, Mul(s, M6))) >>
DtOf(i) == LET c == DateOf(i[1])
           IN  [dt |-> << c[1], c[2], c[3], i[2] \div 3600, (i[2] \div 60) % 60, i[2] % 60, i[3], 0, 0 >>]
DemoCall(op, n, r) == [op |-> op, p |-> << Num(DemoLat), Num(DemoLon), DtOf(AtMicros(HalfHour(n))) >>, r |-> r]
DemoJudge(op, n, r) == LET i == AtMicros(HalfHour(n)) IN JudgeCall(DemoCall(op, n, r), Ephemeris(i))
DemoDown(n) ==                                   \* the Sun is down, or as good as
  LET ep == Ephemeris(AtMicros(HalfHour(n)))
      top == Topocentric(ep, DemoLat, DemoLon, FxZero, <<1, 1, 1>>)
      e == Elevation(DemoLat, top[1], top[2])
  IN  Le(Add(e, Refraction(StdPressure, StdTemperature, e)), T(2))
DemoStart(e) ==
  /\ gen' = [kind |-> "solar_test", start |-> e.start.dt, n |-> 0]
  /\ verdict' = "ok"
  /\ UNCHANGED <<mode, memo, stat>>
SecondsSince(dt) == FloorInt(Div(Sub(MicrosOf(dt), Mul(Floor(Div(MicrosOf(gen.start), M6)), M6)), M6))
DemoLine(e) ==
  LET s == SecondsSince(e.time.dt)   n == s \div 1800 IN
  IF gen.kind # "solar_test" \/ s < 0 \/ s % 1800 # 0 \/ n < gen.n \/ n > 47
  THEN verdict' = "bad:time" /\ UNCHANGED <<mode, memo, gen, stat>>
  ELSE /\ gen' = [gen EXCEPT !.n = n + 1]
       /\ verdict' = FirstBad(<< Clause("left-out", \A k \in gen.n..(n - 1) : DemoDown(k)),
                                 Clause("up", Lt(FxZero, e.alt.n)),
                                 DemoJudge("get_altitude", n, e.alt), DemoJudge("get_azimuth", n, e.azi),
                                 Clause("radiation", LET d == DirectRadiation(UtcYearDay(AtMicros(HalfHour(n))), e.alt.n)
                                                     IN  Near(e.rad.n, d, Add(T(9), Mul(T(10), d)))) >>)
       /\ UNCHANGED <<mode, memo, stat>>
DemoEnd(e) ==
  /\ verdict' = FirstBad(<< Clause("raised", e.err = 0), Clause("printed", e.odd = 0), Clause("left-out", \A k \in gen.n..47 : DemoDown(k)) >>)
  /\ gen' = NoGen
  /\ UNCHANGED <<mode, memo, stat>>
\* elevation_test: a heading, then height, pressure and temperature of the standard atmosphere without fractions
Cut(x, n) == n = Floor(Add(x, T(6))) \/ n = Floor(Sub(x, T(6)))
HeightTable(e) ==
  /\ verdict' = FirstBad(<< Clause("raised", e.err = 0),
        Clause("lines", Len(e.rows) = 11),
        Clause("table", \A k \in 1..Len(e.rows) :
           LET h == I(1000 * (k - 1)) IN
           /\ e.rows[k][1] = h
           /\ Cut(PressureAt(h, StdPressure, StdTemperature, LapseRate, FxZero, GasConstant, Gravity, MolarMass), e.rows[k][2])
           /\ Cut(TemperatureAt(h, StdTemperature, LapseRate), e.rows[k][3])) >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>
\* the examples of the documentation, and what it says they result in
DocExample == << Dec(1, 0, 30914468, 6), Dec(1, 0, 149248192, 6), Dec(1, 0, 909582292, 6) >>
Example(e) ==
  /\ verdict' = Clause("documented", IsNum(e.r) /\ Near(e.r.n, DocExample[e.k], IF e.k = 3 THEN T(4) ELSE T(5)))
  /\ UNCHANGED <<mode, memo, gen, stat>>

---------------------------------------------------------------------------
(* Error statistics against observations: e.obs = <<azimuth, altitude>>.   *)
Count(e) ==
  /\ IF ~(IsNum(e.az) /\ IsNum(e.alt)) THEN verdict' = "bad:finite-number" /\ UNCHANGED stat
     ELSE \E d \in { << FAbs(AngDiff(e.az.n, e.obs[1])), FAbs(Sub(e.alt.n, e.obs[2])) >> } :
          /\ stat' = [n |-> stat.n + 1,
                      sum |-> << Add(stat.sum[1], d[1]), Add(stat.sum[2], d[2]) >>,
                      sq |-> << Add(stat.sq[1], Sq(d[1])), Add(stat.sq[2], Sq(d[2])) >>]
          /\ verdict' = FirstBad(<< Clause("azimuth-max", Le(d[1], e.limit[1])), Clause("altitude-max", Le(d[2], e.limit[2])) >>)
  /\ UNCHANGED <<mode, memo, gen>>
\* n times the variance of the errors
VarianceN(k) == Sub(stat.sq[k], Div(Sq(stat.sum[k]), I(stat.n)))
Summary(e) ==
  /\ verdict' = FirstBad(<< Clause("count", stat.n = e.n),
                            Clause("azimuth-mean", Le(stat.sum[1], MulI(stat.n, e.limit[1]))),
                            Clause("altitude-mean", Le(stat.sum[2], MulI(stat.n, e.limit[2]))),
                            Clause("azimuth-deviation", Le(VarianceN(1), MulI(stat.n, Sq(e.dev[1])))),
                            Clause("altitude-deviation", Le(VarianceN(2), MulI(stat.n, Sq(e.dev[2])))) >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>

(* Months: what the time-scale functions returned at several instants of   *)
(* month m of year y (e.leap, e.dt: sets of distinct results; e.w: was     *)
(* there a warning at each).                                               *)
Month(e) ==
  /\ verdict' =
       IF e.kind = "leap"
       THEN FirstBad(<< Clause("leap-seconds", \A k \in 1..Len(e.v) : IsNum(e.v[k]) /\ e.v[k].n = I(TaiMinusUtcOf(e.y, e.m))),
                        Clause("warning", \A k \in 1..Len(e.w) : e.w[k] <=> (MonthIndex(e.y, e.m) > LeapTableEnd)) >>)
       ELSE Clause("delta-t", \A k \in 1..Len(e.v) : IsNum(e.v[k]) /\ Near(e.v[k].n, Mul(I(DeltaTOf(e.y, e.m)), T(4)), T(9)))
  /\ UNCHANGED <<mode, memo, gen, stat>>

---------------------------------------------------------------------------
(* The table generator script: input lines against the printed table.      *)
\* line: <<year, month, day, value (fx)>>, blank lines left out
Consecutive(ls) ==
  /\ \A k \in 1..Len(ls) : ls[k][3] = 1
  /\ \A k \in 1..(Len(ls) - 1) :
       \/ ls[k + 1][1] = ls[k][1] /\ ls[k + 1][2] = ls[k][2] + 1
       \/ ls[k + 1][1] = ls[k][1] + 1 /\ ls[k + 1][2] = 1 /\ ls[k][2] = 12
\* first value of each printed row
RowStart(rows, k) == IF k = 1 THEN 0 ELSE FoldLeft(LAMBDA acc, j : acc + Len(rows[j]), 0, [j \in 1..(k - 1) |-> j])
TableOk(e) ==
  LET rows == e.out.rows  ls == e.lines IN
  /\ e.out.year = ls[1][1] /\ e.out.month = ls[1][2]
  /\ RowStart(rows, Len(rows) + 1) = Len(ls)
  /\ \A k \in 1..Len(rows) :
       /\ Len(rows[k]) > 0
       /\ \A j \in 1..Len(rows[k]) :
            LET l == ls[RowStart(rows, k) + j] IN
            /\ l[1] = ls[1][1] + k - 1
            /\ l[2] = (IF k = 1 THEN ls[1][2] - 1 ELSE 0) + j
            /\ Near(rows[k][j], l[4], Add(Mul(I(50), T(6)), T(9)))
Script(e) ==
  /\ verdict' =
       IF e.lines = <<>> THEN "ok"                              \* an empty file is not specified
       ELSE IF Consecutive(e.lines) THEN IF ~Has(e, "out") THEN "bad:refused" ELSE Clause("table", TableOk(e))
       ELSE Clause("accepted", ~Has(e, "out"))
  /\ UNCHANGED <<mode, memo, gen, stat>>

---------------------------------------------------------------------------
(* A call seen from outside: e.before and e.after are the state of the     *)
(* process (a sequence of named parts), e.out the number of characters     *)
(* printed (by the demonstrations alone), e.cat the classes of the         *)
(* warnings.  Without a call of ours                                       *)
(* nothing changes, so the state before is the one after the last call.    *)
DocumentedWarning(e, c) ==
  \/ c = "RuntimeWarning"                    \* of numpy's arithmetic: not specified
  \/ /\ c = "UserWarning"
     /\ \/ (Has(e, "when") /\ BeyondLeapTable(Instant(e.when)))
        \/ (Has(e, "h") /\ Lt(I(11000), e.h))
Around(e) ==
  /\ verdict' = FirstBad(<< Clause("output", (e.out = 0) = (e.what \notin {"solar_test", "elevation_test"})),
                            Clause("warning", \A k \in 1..Len(e.cat) : DocumentedWarning(e, e.cat[k])),
                            Clause("process-state", e.after = e.before /\ (amb # <<>> => e.before = amb)) >>)
  /\ amb' = e.after
  /\ UNCHANGED <<mode, memo, gen, stat>>

---------------------------------------------------------------------------
(* Related questions: e.x the answers, one of the laws of Relations.        *)
Relate(e) ==
  /\ verdict' = IF \E k \in 1..Len(e.x) : ~IsNum(e.x[k]) THEN "bad:finite-number"
                ELSE Clause(e.rel, RelationHolds(e.rel, [k \in 1..Len(e.x) |-> e.x[k].n], e.q))
  /\ UNCHANGED <<mode, memo, gen, stat>>

---------------------------------------------------------------------------
(* The same question put in two ways: e.a and e.b are calls that bind the  *)
(* same values to the parameters; the answers agree to the last few bits.  *)
SameArg(x, y) ==
  CASE Has(x, "n") -> Has(y, "n") /\ NearRel(x.n, y.n, T(15))
    [] OTHER -> x = y
RECURSIVE SameAnswer(_, _)
SameAnswer(x, y) ==
  CASE Has(x, "n") -> Has(y, "n") /\ NearRel(x.n, y.n, Mul(I(2), T(13)))
    [] Has(x, "tup") -> Has(y, "tup") /\ Len(x.tup) = Len(y.tup) /\ \A k \in 1..Len(x.tup) : SameAnswer(x.tup[k], y.tup[k])
    [] Has(x, "dt") -> Has(y, "dt") /\ Instant(x.dt) = Instant(y.dt)
    [] Has(x, "nut") -> Has(y, "nut") /\ \A k \in 1..2 : SameAnswer(x.nut[k], y.nut[k])
    [] OTHER -> x = y
Same(e) ==
  /\ verdict' =
       IF ~WellFormed(e.a) \/ ~WellFormed(e.b) \/ e.a.op # e.b.op THEN "bad:harness"
       ELSE LET x == Bind(e.a) y == Bind(e.b) IN
            IF \E nm \in DOMAIN x : ~SameArg(x[nm], y[nm]) THEN "bad:harness"
            ELSE Clause("same-answer", SameAnswer(e.a.r, e.b.r))
  /\ UNCHANGED <<mode, memo, gen, stat>>

---------------------------------------------------------------------------
(* The type stubs.  "stub": a stub file and the names it declares.          *)
(* "declare": a function declared in it, in one or more overloaded forms.   *)
(* "holds": an argument, answer or value and the type declared for it.      *)
StubFile(e) ==
  /\ verdict' = Clause("undeclared", DeclaresAll(e.mod, e.names))
  /\ UNCHANGED <<mode, memo, gen, stat>>
Declare(e) ==
  /\ verdict' = FirstBad(<< Clause("exists", Has(e, "real")),
                            Clause("types", \A k \in 1..Len(e.alts) : \A j \in 1..Len(e.alts[k].ty) : RealType(e.alts[k].ty[j])),
                            IF Has(e, "real") THEN Clause("parameters", \E k \in 1..Len(e.alts) : FunctionOk(e.op, e.real, e.alts[k].par)) ELSE "ok" >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>
Holds(e) ==
  /\ verdict' = FirstBad(<< Clause("exists", Has(e, "v")), IF Has(e, "v") THEN Clause(e.what, \E k \in 1..Len(e.ty) : Conforms(e.v, e.ty[k])) ELSE "ok" >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>

---------------------------------------------------------------------------
(* Several processes.  "born": process e.from makes another, by fork or     *)
(* afresh.  "use": process e.p chooses a backend.  "asked": a question sent *)
(* to process e.p, with its answer as it arrived (e.val) and the backend    *)
(* that process says it uses; what the answer is under either backend is in *)
(* memo.  "copied": something of the library's before and after it was      *)
(* copied or pickled.                                                       *)
DefaultMode(e) == IF Has(e, "nonp") THEN "math" ELSE "numpy"
Born(e) ==
  /\ procs' = Append(procs, IF e.how = "fork" THEN procs[e.from] ELSE DefaultMode(e))
  /\ verdict' = Clause("arrived", ~Has(e, "e"))
  /\ UNCHANGED <<mode, memo, gen, stat>>
UseIn(e) ==
  /\ procs' = [procs EXCEPT ![e.p] = e.to]
  /\ mode' = IF e.p = 1 THEN e.to ELSE mode
  /\ verdict' = Clause("raised", ~Has(e, "e"))
  /\ UNCHANGED <<memo, gen, stat>>
Asked(e) ==
  LET key == e.key \o "@" \o procs[e.p] IN
  /\ verdict' = FirstBad(<< Clause("arrived", ~Has(e, "lost")),
                            Clause("harness", \E k \in 1..Len(memo) : memo[k][1] = key),
                            Clause("backend", ~Has(e, "lost") => e.cur = procs[e.p]),
                            Clause("other-process", ~Has(e, "lost") => \A k \in 1..Len(memo) : memo[k][1] = key => memo[k][2] = e.val) >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>
Copied(e) ==
  /\ verdict' = FirstBad(<< Clause("copied", Has(e, "after")), Clause("same-copy", Has(e, "after") => e.after = e.before) >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>

---------------------------------------------------------------------------
(* A module imported, or again: e.cur is the backend in force afterwards.   *)
Imported(e) ==
  /\ verdict' = FirstBad(<< Clause("imported", ~Has(e, "e")), Clause("backend", ~Has(e, "e") => e.cur = procs[1]) >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>

---------------------------------------------------------------------------
(* What the modules publish: values, the series of any table (get_coeff)    *)
(* and the polynomials of get_aberration_coeffs.                            *)
Publish(e) ==
  /\ verdict' = FirstBad(<< Clause("published", Has(e, "v")), Clause("value", Has(e, "v") => PublishedOk(e.mod, e.name, e.v)) >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>
OfSeries(e) ==
  /\ verdict' = FirstBad(<< Clause("series", SeriesOk(e.table, e.x, e.r)), Clause("mutation", ~e.mut) >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>
Polynomials(e) ==
  /\ verdict' = IF Has(e, "e") THEN "bad:raised"
                ELSE FirstBad(<< Clause("names", PolynomialNames \subseteq { e.at[k][1] : k \in 1..Len(e.at) }),
                                 Clause("polynomial", \A k \in 1..Len(e.at) : PolynomialOk(e.at[k][1], e.x, e.at[k][2])) >>)
  /\ UNCHANGED <<mode, memo, gen, stat>>

---------------------------------------------------------------------------
Next ==
  /\ pos < Len(Sessions[sid].ev)
  /\ pos' = pos + 1
  /\ UNCHANGED sid
  /\ \E ep \in {EphFor(Ev)} :
     /\ eph' = ep
     /\ (Ev.t # "around" => amb' = amb)
     /\ (Ev.t # "turn" => aside' = aside)
     /\ (Ev.t \notin {"born", "use"} => procs' = procs)
     /\ CASE Ev.t = "call"    -> CallEv(Ev, ep)
          [] Ev.t = "around"  -> Around(Ev)
          [] Ev.t = "switch"  -> Switch(Ev)
          [] Ev.t = "refused" -> Refused(Ev)
          [] Ev.t = "guarded" -> Guarded(Ev)
          [] Ev.t = "awkward" -> Awkward(Ev)
          [] Ev.t = "memo"    -> Remember(Ev)
          [] Ev.t = "agree"   -> Agree(Ev)
          [] Ev.t = "forget"  -> Forget
          [] Ev.t = "start"   -> Start(Ev)
          [] Ev.t = "next"    -> NextItem(Ev)
          [] Ev.t = "stop"    -> Stop(Ev)
          [] Ev.t = "yield"   -> Yield(Ev, ep)
          [] Ev.t = "turn"    -> Turn(Ev)
          [] Ev.t = "close"   -> Close
          [] Ev.t = "count"   -> Count(Ev)
          [] Ev.t = "summary" -> Summary(Ev)
          [] Ev.t = "relate"  -> Relate(Ev)
          [] Ev.t = "same"    -> Same(Ev)
          [] Ev.t = "demo"    -> DemoStart(Ev)
          [] Ev.t = "line"    -> DemoLine(Ev)
          [] Ev.t = "demoend" -> DemoEnd(Ev)
          [] Ev.t = "heights" -> HeightTable(Ev)
          [] Ev.t = "example" -> Example(Ev)
          [] Ev.t = "stub"    -> StubFile(Ev)
          [] Ev.t = "declare" -> Declare(Ev)
          [] Ev.t = "holds"   -> Holds(Ev)
          [] Ev.t = "month"   -> Month(Ev)
          [] Ev.t = "script"  -> Script(Ev)
          [] Ev.t = "born"    -> Born(Ev)
          [] Ev.t = "use"     -> UseIn(Ev)
          [] Ev.t = "asked"   -> Asked(Ev)
          [] Ev.t = "copied"  -> Copied(Ev)
          [] Ev.t = "imported" -> Imported(Ev)
          [] Ev.t = "published" -> Publish(Ev)
          [] Ev.t = "series"  -> OfSeries(Ev)
          [] Ev.t = "polynomials" -> Polynomials(Ev)
  /\ verdict' # "ok" => PrintT("VERDICT|" \o ToString(sid) \o "|" \o ToString(pos') \o "|" \o verdict')

Spec == Init /\ [][Next]_vars
=============================================================================
