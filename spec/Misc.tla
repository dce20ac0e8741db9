-------------------------------- MODULE Misc --------------------------------
(* Element traits and the types of the evaluations of each problem family;    *)
(* expressions of time; AmgX configurations.                                  *)
EXTENDS Rat, FiniteSets, TLC

Upd(f, k, x) == (k :> x) @@ f

(* ---- physics: the fields at a node, in order ---- *)
Base(ph, d) == IF ph # "Multi" THEN ph ELSE CASE d = 1 -> "Mechanics" [] d = 2 -> "Thermomechanics" [] OTHER -> "Plasticity"
Fields(ph, d) ==
  CASE ph = "Thermal" -> <<<<"temp", 1>>>>
    [] ph = "Mechanics" -> <<<<"disp", d>>>>
    [] ph = "Electromechanics" -> <<<<"disp", d>>, <<"potential", 1>>>>
    [] ph = "Thermomechanics" -> <<<<"disp", d>>, <<"temp", 1>>>>
    [] ph = "StabilizedMechanics" -> <<<<"disp", d>>, <<"press", 1>>>>
    [] ph = "StabilizedThermomechanics" -> <<<<"disp", d>>, <<"press", 1>>, <<"temp", 1>>>>
    [] ph = "StructuralDynamics" -> <<<<"real", d>>, <<"imag", d>>>>
    [] ph = "Plasticity" -> <<<<"disp", d>>, <<"press", 1>>>>
    [] ph = "ThermoPlasticity" -> <<<<"disp", d>>, <<"temp", 1>>, <<"press", 1>>>>
    [] OTHER -> <<<<"grad", d>>>>
Plastic == {"Plasticity", "ThermoPlasticity"}
Stabilized == Plastic \cup {"StabilizedMechanics", "StabilizedThermomechanics"}
RECURSIVE Offset(_, _)
Offset(fs, n) == IF fs = <<>> THEN 0 ELSE IF fs[1][1] = n THEN 0 ELSE fs[1][2] + Offset(Tail(fs), n)
Has(fs, n) == \E i \in 1..Len(fs) : fs[i][1] = n
RECURSIVE Dofs(_)
Dofs(fs) == IF fs = <<>> THEN 0 ELSE fs[1][2] + Dofs(Tail(fs))
Nodes(d) == d + 1
\* components of a symmetric tensor; plane strain keeps the out-of-plane normal component
Voigt(d) == (d * (d + 1)) \div 2
Stress(d) == IF d = 2 THEN 4 ELSE Voigt(d)
NodeState(ph, d) == IF ph \in Stabilized THEN d ELSE IF ph = "Projection" THEN d ELSE 0
\* plastic strain, backstress, accumulated plastic strain and plastic multiplier
Local(ph, d) == IF ph \in Plastic THEN 2 * Stress(d) + 2 ELSE 0
Controls(ph, d) == IF ph = "Multi" THEN d + 1 ELSE 1
Traits(p0, d) ==
  LET ph == Base(p0, d)  fs == Fields(ph, d) IN
  [dims |-> d, nodes |-> Nodes(d), dofs |-> Dofs(fs), cell |-> Dofs(fs) * Nodes(d), controls |-> Controls(p0, d), nodestate |-> NodeState(ph, d), local |-> Local(ph, d)]
  @@ (IF ph \in {"Thermal", "Projection"} THEN <<>> ELSE [voigt |-> Voigt(d)])
  @@ (IF ph \in Plastic THEN [stress |-> Stress(d), disp |-> 0] ELSE <<>>)
  @@ (IF Has(fs, "press") THEN [press |-> Offset(fs, "press")] ELSE <<>>)
  @@ (IF ph \in Plastic THEN [temp |-> IF Has(fs, "temp") THEN Offset(fs, "temp") ELSE -1] ELSE <<>>)
  @@ (IF ph \in {"Thermomechanics", "StabilizedThermomechanics"} THEN [toff |-> Offset(fs, "temp")] ELSE <<>>)
  @@ (IF NodeState(ph, d) > 0 THEN [nodestatecell |-> NodeState(ph, d) * Nodes(d)] ELSE <<>>)
  @@ (IF ph = "Projection" THEN [total |-> d + 2, proj |-> d + 1, press |-> d] ELSE <<>>)

(* ---- evaluations: which argument is differentiated ---- *)
Args(fam) == CASE fam = "local" -> <<"State", "PrevState", "LocalState", "PrevLocalState", "NodeState", "Control", "Config">>
               [] fam = "elliptic" -> <<"State", "Control", "Config">> [] fam = "parabolic" -> <<"State", "StateDot", "Control", "Config">>
               [] fam = "hyperbolic" -> <<"State", "StateDot", "StateDotDot", "Control", "Config">> [] OTHER -> <<"Control", "Config">>
Kinds(fam) == {"Residual", "GradientZ", "GradientX"} \cup (CASE fam = "local" -> {"Jacobian", "JacobianN", "JacobianP", "LocalJacobian", "LocalJacobianP"}
               [] fam = "elliptic" -> {"Jacobian"} [] fam = "parabolic" -> {"GradientU", "GradientV"} [] fam = "hyperbolic" -> {"GradientU", "GradientV", "GradientA"} [] OTHER -> {})
Active(kind) == CASE kind = "Residual" -> "none" [] kind \in {"Jacobian", "GradientU"} -> "State" [] kind = "JacobianP" -> "PrevState" [] kind = "JacobianN" -> "NodeState"
                  [] kind = "LocalJacobian" -> "LocalState" [] kind = "LocalJacobianP" -> "PrevLocalState" [] kind = "GradientV" -> "StateDot"
                  [] kind = "GradientA" -> "StateDotDot" [] kind = "GradientZ" -> "Control" [] OTHER -> "Config"
\* number of entries of an argument in a cell
Size(arg, p0, d) ==
  LET ph == Base(p0, d) IN
  CASE arg \in {"State", "PrevState", "StateDot", "StateDotDot"} -> Dofs(Fields(ph, d)) * Nodes(d) [] arg \in {"LocalState", "PrevLocalState"} -> Local(ph, d)
    [] arg = "NodeState" -> NodeState(ph, d) * Nodes(d) [] arg = "Control" -> Nodes(d) [] arg = "Config" -> d * Nodes(d) [] OTHER -> -1
Weighted(v) == RSum([i \in 1..Len(v) |-> RMul(ToString(i), v[i])])
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN "1" ELSE RMul(Head(s), Prod(Tail(s)))

(* ---- expressions of time: trees as in Expr ---- *)
Leaf(k, t)    == [n |-> k, t |-> t, a |-> <<>>]
Node(k, a)    == [n |-> k, t |-> "", a |-> a]
RECURSIVE At(_, _)
At(x, env) ==
  CASE x.n = "num" -> RNum(x.t)
    [] x.n = "var" -> env[x.t]
    [] OTHER ->
       LET a == At(x.a[1], env)  b == IF Len(x.a) = 2 THEN At(x.a[2], env) ELSE "0" IN
       CASE x.n = "+" -> RAdd(a, b) [] x.n = "-" -> RSub(a, b) [] x.n = "*" -> RMul(a, b) [] x.n = "/" -> RDiv(a, b) [] x.n = "^" -> RPow(a, b)
         [] x.n = "neg" -> RNeg(a) [] x.n = "sin" -> RSin(a) [] x.n = "cos" -> RCos(a) [] x.n = "exp" -> RExp(a)

(* ---- AmgX ---- *)
Solver == [eaf |-> <<"PCG", "AMG", "CGF">>, default |-> <<"PBICGSTAB", "AMG", "W">>, pcg_noprec |-> <<"PCG", "NOSOLVER", "">>, pcg_v |-> <<"PCG", "AMG", "V">>,
           pcg_w |-> <<"PCG", "AMG", "W">>, pcg_f |-> <<"PCG", "AMG", "F">>, agg_cheb4 |-> <<"AMG", "AMG", "V">>]

(* ------------------------------ judging ------------------------------------ *)
Judge1(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      chk(c, w) == IF ~e.exc /\ c THEN ok(s) ELSE bad(w)
  IN
  CASE e.op = "traits" -> LET t == Traits(e.phys, e.dim) IN chk(\A k \in DOMAIN t : e.out[k] = t[k], "wrong element traits")
  [] e.op = "types" ->
       LET a == Active(e.kind)  n == IF a = "none" THEN -1 ELSE Size(a, e.phys, e.dim)  names == Args(e.fam) IN
       chk(/\ DOMAIN e.out.args = {names[i] : i \in 1..Len(names)}
           /\ \A i \in 1..Len(names) : e.out.args[names[i]] = (IF names[i] = a THEN n ELSE -1)
           /\ e.out.result = n /\ e.out.mixed = n
           /\ e.out.nodes = Nodes(e.dim) /\ e.out.dims = e.dim /\ e.out.controls = Controls(e.phys, e.dim),
           "wrong derivatives carried by an evaluation")
  [] e.op = "derive" ->
       LET names == Args(e.fam)  a == Active(e.kind)
           w == [i \in 1..Len(names) |-> Weighted(e.v[i])]
           rest(i) == Prod([k \in 1..Len(names) |-> IF k = i THEN "1" ELSE w[k]])
           j == {i \in 1..Len(names) : names[i] = a}
       IN chk(RClose(e.out.v, Prod(w)) /\ (IF j = {} THEN e.out.d = <<>>
              ELSE LET i == CHOOSE x \in j : TRUE IN Len(e.out.d) = Len(e.v[i]) /\ \A k \in 1..Len(e.v[i]) : RClose(e.out.d[k], RMul(ToString(k), rest(i)))),
              "wrong derivatives")
  [] e.op = "mexpr" -> IF e.exc THEN bad("the expression was rejected") ELSE ok(Upd(s, e.M, [ast |-> e.ast, env |-> e.env]))
  [] e.op = "mval" ->
       LET m == s[e.M]
           exp == At(m.ast, [n \in DOMAIN m.env \cup {"t"} |-> IF n = "t" THEN RDual(e.t, "1") ELSE RNum(m.env[n])])
           \* time is passed on with 18 decimals
           slack == RMul("1e-18", RAbs(RDer(exp, 1)))
       IN IF ~RFin(RVal(exp)) THEN ok(s)
          ELSE chk(RClose(e.out.r, RVal(exp)) \/ RClose(e.out.r, RAdd(RVal(exp), slack)) \/ RLeq(RAbs(RSub(e.out.r, RVal(exp))), slack), "wrong value of an expression of time")
  [] e.op = "amgx" ->
       IF e.name \notin DOMAIN Solver THEN (IF e.exc THEN ok(s) ELSE bad("an unknown configuration was accepted"))
       ELSE IF e.exc \/ ~e.out.json THEN bad("the configuration is not a JSON object")
       ELSE LET c == Solver[e.name]
                tol == IF e.tol = "none" THEN "1e-10" ELSE e.tol   itr == IF e.tol = "none" THEN 10000 ELSE e.itr
                limits == RNear(e.out.tol, tol, "0", "1/100000") /\ e.out.itr = itr
                rest == /\ <<e.out.solver, e.out.prec, e.out.cycle>> = c /\ e.out.norm = "L2" /\ e.out.monitor = 1
                        /\ e.out.conv = (IF e.abs = "no" THEN "RELATIVE_INI_CORE" ELSE "ABSOLUTE")
            IN IF ~rest THEN bad("not the requested configuration")
               ELSE IF limits THEN ok(s)
               ELSE IF e.name = "default" /\ REq(e.out.tol, "0x1.ad7f29abcaf48p-25") /\ e.out.itr = 1000 THEN [v |-> "known", why |-> "F22", st |-> s]
               ELSE bad("not the requested tolerance or number of iterations")
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
