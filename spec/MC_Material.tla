---------------------------- MODULE MC_Material ----------------------------
(* "coeff": every choice of present coefficients of a tensor or stiffness.    *)
(* "iso": isotropic stiffness over a grid of constants.  "hist": every        *)
(* history of Depth store operations on a model.                              *)
EXTENDS Material, Json, FiniteSets

CONSTANTS Kind, Depth

VARIABLES c, mo, hist

Dbl(v) == [t |-> "d", v |-> v]
Lst(p) == [t |-> "l", l |-> p]
\* distinct values for the coefficients, by position
Val(k) == ToString(10 * k + 3)
Pairs(n) == {<<i, j>> \in (1..n) \X (1..n) : i <= j}
Keys(dim, rank) ==
  IF rank = "t" THEN {Key("", p[1], p[2]) : p \in Pairs(dim)}
  ELSE {Key("", p[1], p[2]) : p \in {q \in Pairs(NV(dim)) : q[1] = q[2] \/ q[2] <= dim}}
RECURSIVE SetToSeq1(_)
SetToSeq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq1(S \ {x})
Numbered(S) == LET q == SetToSeq1(S) IN [k \in S |-> Dbl(Val(CHOOSE i \in 1..Len(q) : q[i] = k))]
Coeffs == UNION {{[op |-> "prop", rank |-> r, dim |-> d, w |-> "constant", ctor |-> "list", p |-> Numbered(S), x |-> <<"0">>] :
             S \in SUBSET (Keys(d, r) \ (IF d = 3 THEN {"c55"} ELSE {}))} : d \in {1, 2, 3}, r \in {"t", "v"}}
Isos == {[op |-> "prop", rank |-> "v", dim |-> d, w |-> "constant", ctor |-> "iso", x |-> <<"0">>,
          p |-> [k \in {"Poissons Ratio", "Youngs Modulus"} |-> Dbl(IF k = "Youngs Modulus" THEN E ELSE v)]] :
          d \in {1, 2, 3}, E \in {"1", "200"}, v \in {"-1/2", "-1/4", "0", "1/4", "3/8", "7/16"}} \union
        {[op |-> "prop", rank |-> "v", dim |-> d, w |-> "functor", ctor |-> "iso", x |-> <<"0", "-3">>,
          p |-> [k \in {"Poissons Ratio", "Youngs Modulus"} |-> IF k = "Youngs Modulus" THEN Lst([q \in K |-> Dbl(IF q = "c0" THEN "64" ELSE IF q = "c1" THEN "-3" ELSE "2")]) ELSE Dbl(v)]] :
          d \in {1, 2, 3}, K \in SUBSET {"c0", "c1", "c2"}, v \in {"0", "1/4", "-1/4"}}

Names == {"A", "B"}
One(k, x) == [n \in {k} |-> x]
Inputs(nm) == {<<>>, One(nm, Dbl("5")), One(nm, Lst(One("c11", Dbl("7")))), One(nm, Lst([k \in {"c011", "c111", "c0", "c033", "c044"} |-> Dbl(IF k = "c111" THEN "3" ELSE "2")])),
               One(nm, [t |-> "i", i |-> 4])}
HistOps == UNION {{[op |-> "parse", M |-> "m", what |-> w, name |-> nm, p |-> p, def |-> "9"] :
                     w \in {"scalar", "const", "constdef", "tensor", "voigt"}, p \in Inputs(nm)} : nm \in Names} \union
           {[op |-> "set", M |-> "m", slot |-> "tf", name |-> "A", ctor |-> "value", w |-> "functor", v |-> "4"],
            [op |-> "set", M |-> "m", slot |-> "sc", name |-> "B", ctor |-> "value", w |-> "constant", v |-> "6"]}
Types == {<<>>, One("Temperature Dependent", [t |-> "b", b |-> TRUE])}
StepOp(m, o) == IF o.op = "parse" THEN LET r == ParseStep(m, o.what, o.name, o.p, o.def) IN (IF r.ok THEN r.mo ELSE m)
                ELSE Put(m, o.slot, o.name, Given(o, Rank(o.slot), m.dim).m)

Init == CASE Kind = "coeff" -> (\E e \in Coeffs : c = e) /\ mo = Model0(1, "Linear") /\ hist = <<>>
          [] Kind = "iso" -> (\E e \in Isos : c = e) /\ mo = Model0(1, "Linear") /\ hist = <<>>
          [] Kind = "hist" -> (\E p \in Types : c = [op |-> "model", M |-> "m", dim |-> 2, dflt |-> FALSE, p |-> p] /\ mo = Model0(2, TypeOf(p))) /\ hist = <<>>
Next == CASE Kind = "hist" -> Len(hist) < Depth /\ (\E o \in HistOps : hist' = Append(hist, o) /\ mo' = StepOp(mo, o)) /\ UNCHANGED c
          [] OTHER -> UNCHANGED <<c, mo, hist>>
Spec == Init /\ [][Next]_<<c, mo, hist>>

(* ------------------------------- laws -------------------------------------- *)
\* every property read from a list is a symmetric matrix, with what was given at its place
Symmetric == Kind \in {"coeff", "iso"} => LET r == Given(c, c.rank, c.dim) IN
  r.ok => /\ \A q \in 1..3 : MEq(r.m.c[q], MTrans(r.m.c[q]))
          /\ (Kind = "coeff" => \A p \in Pairs(r.m.n) : Has(c.p, Key("", p[1], p[2]), "d") => REq(r.m.c[1][p[1]][p[2]], c.p[Key("", p[1], p[2])].v))
\* isotropy: C11 - C12 = 2 G, the volumetric mode is E / (1 - 2v), and the tensor is positive definite
Isotropic == Kind = "iso" /\ c.w = "constant" => LET C == Given(c, "v", c.dim).m.c[1]
                                                     E == c.p["Youngs Modulus"].v  v == c.p["Poissons Ratio"].v  d == c.dim IN
  /\ (d > 1 => REq(RSub(C[1][1], C[1][2]), RMul("2", C[d + 1][d + 1])))
  /\ (d = 3 => REq(RAdd(C[1][1], RMul("2", C[1][2])), RDiv(E, RSub("1", RMul("2", v)))))
  /\ RLt("0", C[1][1]) /\ (d > 1 => RLt("0", C[d + 1][d + 1]))
  /\ (d > 1 => RLt("0", RAdd(C[1][1], RMul(d - 1, C[1][2]))))
\* a linear model never acquires a temperature-dependent property by parsing, nor the converse; names do not interfere
TypeRespected == Kind = "hist" =>
  LET parsed == \A i \in 1..Len(hist) : hist[i].op = "parse"  S == mo.store IN
  parsed => (IF Non(mo) THEN DOMAIN S["tc"] = {} /\ DOMAIN S["vc"] = {} ELSE DOMAIN S["sf"] = {} /\ DOMAIN S["tf"] = {} /\ DOMAIN S["vf"] = {})
LastWins == Kind = "hist" /\ hist # <<>> => LET o == hist[Len(hist)] IN
  o.op = "set" => Got(mo, o.slot, o.name) = Given(o, Rank(o.slot), mo.dim).m

Gets == [i \in 1..6 |-> [op |-> "get", M |-> "m", slot |-> <<"sc", "sf", "tc", "tf", "vc", "vf">>[i], name |-> "A", x |-> <<"2">>]] \o
        [i \in 1..6 |-> [op |-> "get", M |-> "m", slot |-> <<"sc", "sf", "tc", "tf", "vc", "vf">>[i], name |-> "B", x |-> <<"2">>]]
Emit == CASE Kind \in {"coeff", "iso"} -> PrintT("SCEN " \o ToJson(<<c>>))
          [] OTHER -> Len(hist) = Depth => PrintT("SCEN " \o ToJson(<<c>> \o hist \o Gets))
=============================================================================
