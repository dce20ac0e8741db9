------------------------------ MODULE MC_Trans ------------------------------
(* Problems that change in time, step by step: what is conserved, what stays, *)
(* and what the derivatives through all states mean.                          *)
EXTENDS MC_FE, Trans
VARIABLES held, start, rule, run        \* where the base is held, how it starts, the rule of time integration, the states so far
tvars == <<vars, held, start, rule, run>>

Hyper == Kind = "hyper"
Pde == IF Hyper THEN "Hyperbolic" ELSE "Parabolic"
Last == IF Depth = 0 THEN 3 ELSE 4
BaseT == CASE d = 1 -> <<0>> [] d = 2 -> <<0, 1>> [] OTHER -> <<0, 1, 2>>
HoldT(i, v) == Lst(("Type" :> S("Fixed Value")) @@ ("Sides" :> S("base")) @@ ("Index" :> I(i)) @@ ("Value" :> D(v)))
\* displacements that no mass moves have to be held
Holds == IF held = "none" THEN (IF phys = "Thermomechanics" THEN 1..d ELSE {}) ELSE 1..NdM
HoldList == [i \in {ToString(k) : k \in Holds} |-> HoldT((CHOOSE k \in 1..NdM : ToString(k) = i) - 1, IF i = ToString(NdM) /\ held = "pull" THEN "0.5" ELSE "0.0")]
Stuff == IF Hyper THEN ("Isotropic Linear Elastic" :> Lst(("Youngs Modulus" :> D("2.5")) @@ ("Poissons Ratio" :> D("0.25")) @@ ("Mass Density" :> D("1.5"))))
         ELSE MatList @@ ("Thermal Mass" :> Lst(("Mass Density" :> D("1.5")) @@ ("Specific Heat" :> D("2.0"))))
Started == CASE start = "even" -> {IF Hyper THEN "Velocity X" ELSE "Temperature"}
             [] start = "slope" -> IF Hyper THEN {RateNames([kind |-> Pde, d |-> d])[i] : i \in 1..d} ELSE {"Temperature"}
             [] start = "bent" -> {IF Hyper THEN "Displacement X" ELSE "Temperature"} [] OTHER -> {}
Shape == CASE start = "even" -> "2.0" [] start = "slope" -> "1.0+2.0*x" [] OTHER -> "x*x"
Shapes == ("2.0" :> <<"2.0", "0.0", "0.0", "0.0", "0.0">>) @@ ("1.0+2.0*x" :> <<"1.0", "2.0", "0.0", "0.0", "0.0">>) @@ ("x*x" :> <<"0.0", "0.0", "0.0", "0.0", "1.0">>)
Integration == ("Number Time Steps" :> I(Last)) @@ ("Time Step" :> D("0.5"))
  @@ (IF Hyper THEN ("Newmark Gamma" :> D(IF rule = "mean" THEN "0.5" ELSE "0.75")) @@ ("Newmark Beta" :> D(IF rule = "mean" THEN "0.25" ELSE "0.5"))
      ELSE ("Trapezoid Alpha" :> D(IF rule = "mean" THEN "0.5" ELSE "1.0")))
TPen == "Penalty Function" :> Lst(("Type" :> S(pen)) @@ ("Minimum Value" :> D("0.125")))
TEnergy == IF Hyper THEN "Internal Elastic Energy" ELSE IF phys = "Thermal" THEN "Internal Thermal Energy" ELSE "Internal Thermoelastic Energy"
TCrits == ("energy" :> Lst(("Type" :> S("Scalar Function")) @@ ("Scalar Function Type" :> S(TEnergy)) @@ TPen))
  @@ (IF phys = "Thermal" THEN "mean" :> Lst(("Type" :> S("Scalar Function")) @@ ("Scalar Function Type" :> S("Temperature Average")) @@ TPen) ELSE <<>>)
TEv == [Ev EXCEPT !.nsets = "base" :> BaseT, !.exprs = Shapes,
          !.params = (IF Started = {} THEN <<>> ELSE ("Computed Fields" :> Lst("shape" :> Lst("Function" :> S(Shape))))
                                                     @@ ("Initial State" :> Lst([n \in Started |-> Lst("Computed Field" :> S("shape"))])))
                     @@ ("PDE Constraint" :> S(Pde)) @@ (Pde :> Lst(TPen)) @@ ("Time Integration" :> Lst(Integration)) @@ ("Criteria" :> Lst(TCrits))
                     @@ ((IF Hyper THEN "Displacement Boundary Conditions" ELSE "Essential Boundary Conditions") :> Lst(HoldList))
                     @@ ("Linear Solver" :> Lst(("Iterations" :> I(300)) @@ ("Tolerance" :> D("1e-14"))))
                     @@ ("Material Models" :> Lst("m" :> Lst(Stuff))) @@ @]
       @@ ("kind" :> Pde)
Mt == ModelOf(TEv)
Rule0 == [u |-> Given0(Mt, StateNames(Mt)), v |-> Given0(Mt, RateNames(Mt)), a |-> Rest(Mt)]
After(m, z, p, k) == LET w == Vals(Advance(m, z, Conditions(m, TimeAt(m, k)), p, TimeAt(m, k), Rest(m), 0)) IN
  [u |-> w, v |-> Vals(Rates(m, w, p.u, p.v, p.a)), a |-> Vals(Accels(m, w, p.u, p.v, p.a))]
RECURSIVE Runs(_, _, _)
Runs(m, z, r) == IF Len(r) = Last THEN r ELSE Runs(m, z, Append(r, After(m, z, r[Len(r)], Len(r) + 1)))

TInit == /\ phys \in (IF Hyper THEN {"Mechanics"} ELSE {"Thermal", "Thermomechanics"}) /\ d \in 1..3 /\ mesh \in NCells(d)
         /\ pen \in (IF Depth = 0 THEN {"SIMP"} ELSE {"SIMP", "RAMP", "Heaviside"}) /\ load \in {"none", "Uniform"}
         /\ held \in {"none", "zero", "pull"} /\ start \in {"zero", "even", "slope", "bent"} /\ rule \in {"mean", "late"} /\ mode = 0 /\ done = FALSE
         \* without support a cell, or two in space, could turn without anything resisting
         /\ (Hyper /\ held = "none") => (d = 1 \/ (d = 2 /\ mesh > 1))
         /\ (Depth = 0 /\ d = 3) => (rule = "mean" /\ load = "none")
         /\ run = <<Rule0>>
TNext == /\ ~done /\ Len(run) < Last /\ run' = Append(run, After(Mt, Z, run[Len(run)], Len(run) + 1))
         /\ done' = (Len(run') = Last) /\ UNCHANGED <<phys, d, mesh, pen, load, mode, held, start, rule>>
TSpec == TInit /\ [][TNext]_tvars

WholeT == Len(run) = 1 => ModelOk(TEv) /\ TProblemOk(Mt) /\ \A k \in 1..Last : Consistent(Conditions(Mt, TimeAt(Mt, k)))
Tiny(x) == RNear(x, "0", "1", "1e-35")
Now1 == run[Len(run)]
Was == run[Len(run) - 1]
Free(g) == ~Held(Conditions(Mt, "0"), g)
ResT(s) == Residual(InMotion(Mt, s.v, s.a, TimeAt(Mt, Len(run))), s.u, Z, Mt.X, Mt.X, Mt.X)
\* every state after the first is in balance with its own rates, and where it is held
StepBalance == Len(run) > 1 => LET r == ResT(Now1) IN \A g \in 1..Dofs(Mt) : IF Free(g) THEN Tiny(RVal(r[g])) ELSE REq(Now1.u[g], HeldAt(Conditions(Mt, "0"), g))
\* nothing acts, nothing moves
StaysStill == (load = "none" /\ held # "pull" /\ start = "zero") => \A g \in 1..Dofs(Mt) : RIsZero(Now1.u[g]) /\ RIsZero(Now1.v[g])
\* an even temperature stays, an even velocity carries the body along
StaysEven == (load = "none" /\ held = "none" /\ start = "even" /\ phys # "Thermomechanics") => \A g \in 1..Dofs(Mt) :
  IF Hyper THEN Tiny(RSub(Now1.v[g], run[1].v[g])) /\ Tiny(Now1.a[g]) /\ Tiny(RSub(Now1.u[g], RMul(run[1].v[g], TimeAt(Mt, Len(run)))))
  ELSE Tiny(RSub(Now1.u[g], "2")) /\ Tiny(Now1.v[g])
\* what is stored (heat, momentum) changes by what is supplied, weighted as the rule says; what is supplied at the start is not counted
Mass == Mt.doms["D"].cells
Stored(x, i) == RSum([j \in 1..Len(Mass) |-> LET c == Mass[j] IN RMul(RMul(G!Pen(Mt.pen, CellMean(Mt, c, Z)), Volume(d, Corners(Mt, c, Mt.X))), RMul(IF Hyper THEN "1.5" ELSE "3", MeanOf(Mt, c, x, i)))])
Supply(i) == RNeg(Total(Vals(Residual(InMotion(Mt, Rest(Mt), Rest(Mt), "0"), Rest(Mt), Z, Mt.X, Mt.X, Mt.X)), i))
Late == IF Hyper THEN Rule(Mt).gamma ELSE Rule(Mt).alpha
Conserved == (Len(run) > 1 /\ held = "none") => \A i \in (IF Hyper THEN 1..d ELSE {NdM}) :
  LET f == Supply(i)  x == IF Hyper THEN Stored(Now1.v, i) ELSE Stored(Now1.u, i)  y == IF Hyper THEN Stored(Was.v, i) ELSE Stored(Was.u, i)
      part == IF Len(run) = 2 THEN Late ELSE "1"
  IN Tiny(RSub(RSub(x, y), RMul(StepOf(Mt), RMul(part, f))))
\* with the mean rule the energy of free motion from a state without strain stays as it is
Static(u) == VSub(Residual(InMotion(Mt, Rest(Mt), Rest(Mt), "0"), u, Z, Mt.X, Mt.X, Mt.X), Residual(InMotion(Mt, Rest(Mt), Rest(Mt), "0"), Rest(Mt), Z, Mt.X, Mt.X, Mt.X))
MassTimes(a) == VSub(Residual(InMotion(Mt, Rest(Mt), a, "0"), Rest(Mt), Z, Mt.X, Mt.X, Mt.X), Residual(InMotion(Mt, Rest(Mt), Rest(Mt), "0"), Rest(Mt), Z, Mt.X, Mt.X, Mt.X))
Whole3(s) == RAdd(RDot(s.v, MassTimes(s.v)), RDot(s.u, Static(s.u)))
EnergyKept == (Len(run) > 1 /\ Hyper /\ rule = "mean" /\ load = "none" /\ held = "none" /\ start \in {"even", "slope"}) => Tiny(RSub(Whole3(Now1), Whole3(run[1])))
HeatOf(v) == Residual(InMotion(Mt, v, Rest(Mt), "0"), Rest(Mt), Z, Mt.X, Mt.X, Mt.X)
\* with the other rule, heat spreads out: differences never grow
Calmer == (Len(run) > 1 /\ phys = "Thermal" /\ load = "none" /\ held # "pull" /\ rule = "late") => RLeq(RVal(RSub(RDot(Now1.u, Vals(HeatOf(Now1.u))), RDot(Was.u, Vals(HeatOf(Was.u))))), "1e-35")
\* linear: a start twice as far leads twice as far, where nothing else acts
Doubled == (done /\ load = "none" /\ held # "pull") => LET r == Runs(Mt, Z, <<[u |-> VScale("2", run[1].u), v |-> VScale("2", run[1].v), a |-> Rest(Mt)]>>) IN
  \A g \in 1..Dofs(Mt) : Tiny(RSub(r[Last].u[g], RMul("2", Now1.u[g])))
\* the derivative through all states is what a small change of the design does
Hist(r) == [u |-> Now([k \in 1..Last |-> r[k].u]), v |-> Now([k \in 1..Last |-> r[k].v]), a |-> Now([k \in 1..Last |-> r[k].a])]
Tilt == [n \in 1..NPts(d, mesh) |-> RNum(n - 2)]
Slide == [n \in 1..NPts(d, mesh) |-> [i \in 1..d |-> IF (n + i) % 2 = 0 THEN "1" ELSE "-1/2"]]
H == "1/1000000000000000"
Differs(x, y, t) == ~RNear(RDiv(RSub(x, y), H), t, RMax("1", RAbs(t)), "1e-9")
BsOf == LET As == Systems(Mt, Hist(run), Z) IN Now([k \in 1..Last |-> IF k = 1 THEN <<>> ELSE RInverse(As[k])])
Worth(n) == RVal(TValue(Mt, n, Hist(run).u, Z, Mt.X))
SlopeZ == (done /\ (d < 3 \/ Depth > 0)) => \A n \in DOMAIN TCrits :
  LET s == RVal(Sensitivity(Mt, n, Hist(run), Z, Tilt, Slide, 2, BsOf).y)
      z == Now([k \in 1..Len(Z) |-> RAdd(Z[k], RMul(H, Tilt[k]))])
  IN ~Differs(RVal(TValue(Mt, n, Hist(Runs(Mt, z, <<run[1]>>)).u, z, Mt.X)), Worth(n), s)
SlopeX == (done /\ (d < 3 \/ Depth > 0)) => \A n \in DOMAIN TCrits :
  LET s == RVal(Sensitivity(Mt, n, Hist(run), Z, Tilt, Slide, 3, BsOf).y)
      X == Now([k \in 1..Len(Mt.X) |-> VAdd(Mt.X[k], VScale(H, Slide[k]))])
      m == [Mt EXCEPT !.X = X]
  IN ~Differs(RVal(TValue(m, n, Hist(Runs(m, Z, <<run[1]>>)).u, Z, X)), Worth(n), s)

TEmit == done => PrintT("SCEN " \o ToJson(<<TEv, [op |-> "tproblem", M |-> "m", kind |-> Pde], [op |-> "tsolve", M |-> "m", kind |-> Pde, z |-> Z],
   [op |-> "tres", M |-> "m", u |-> Some(1), v |-> Some(2), a |-> Some(3), z |-> Z, dt |-> "0.5", t |-> "1", du |-> Some(4), dv |-> Some(5), da |-> Some(6),
    dz |-> [n \in 1..NPts(d, mesh) |-> "1"], dx |-> [n \in 1..NPts(d, mesh) |-> [i \in 1..d |-> IF (n + i) % 2 = 0 THEN "1" ELSE "-0.5"]]]>>
  \o [i \in 1..3 |-> [op |-> "tcrit", M |-> "m", kind |-> Pde, name |-> <<"energy", "mean", "none">>[i], z |-> Z, u |-> <<>>, v |-> <<>>, a |-> <<>>, xfirst |-> (rule = "mean"),
       dz |-> [n \in 1..NPts(d, mesh) |-> IF n % 2 = 0 THEN "1" ELSE "-0.5"], dx |-> [n \in 1..NPts(d, mesh) |-> [k \in 1..d |-> IF (n + k) % 2 = 0 THEN "1" ELSE "-0.5"]]]]))
=============================================================================
