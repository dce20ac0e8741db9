------------------------------- MODULE MC_Misc -------------------------------
(* "elements": every physics, dimension, family and evaluation (complete).    *)
(* "time": every expression tree of depth Depth over t and a parameter.       *)
(* "amgx": every configuration, limit and kind of tolerance.                  *)
EXTENDS Misc, Json

CONSTANTS Kind, Depth

VARIABLE ops

Phys == {"Thermal", "Mechanics", "Electromechanics", "Thermomechanics", "StabilizedThermomechanics", "StabilizedMechanics", "StructuralDynamics", "Plasticity", "ThermoPlasticity", "Projection", "Multi"}
Fams == {"local", "elliptic", "parabolic", "hyperbolic", "geometric"}
Elements == {<<[op |-> "traits", phys |-> p, dim |-> d]>> \o [i \in 1..1 |-> [op |-> "types", phys |-> p, dim |-> d, fam |-> f, kind |-> k]] :
             p \in Phys, d \in 1..3, f \in Fams, k \in {"Residual"}}
            \cup UNION {{<<[op |-> "types", phys |-> p, dim |-> d, fam |-> f, kind |-> k]>> : p \in Phys, d \in 1..3, k \in Kinds(f)} : f \in Fams}
Small(n) == [i \in 1..n |-> ToString((i % 3) + 1)]
Values(f, p, d) == [i \in 1..Len(Args(f)) |-> Small(IF Size(Args(f)[i], p, d) > 0 THEN Size(Args(f)[i], p, d) ELSE 1)]
Derivs == UNION {{<<[op |-> "derive", phys |-> q[1], dim |-> q[2], fam |-> f, kind |-> k, v |-> Values(f, q[1], q[2])]>> : q \in {<<"Plasticity", 2>>, <<"Thermomechanics", 1>>},
                  k \in {x \in Kinds(f) : f # "local" \/ x \in {"Residual", "Jacobian", "JacobianP", "GradientZ", "GradientX"}}} : f \in Fams \ {"geometric"}}
          \cup {<<[op |-> "derive", phys |-> "Plasticity", dim |-> 2, fam |-> "local", kind |-> k, v |-> Values("local", "Plasticity", 2)]>> : k \in Kinds("local")}

RECURSIVE Trees(_)
Trees(n) == IF n = 0 THEN {Leaf("var", "t"), Leaf("num", "2.5"), Leaf("var", "a")}
            ELSE LET s == Trees(n - 1) IN s \cup {Node(o, <<x, y>>) : o \in {"+", "-", "*"}, x \in s, y \in Trees(0)} \cup {Node(f, <<x>>) : f \in {"sin", "exp", "neg"}, x \in s}
                                            \cup {Node("/", <<x, Leaf("num", "4.0")>>) : x \in s}
RECURSIVE Text(_)
Text(x) == CASE x.n \in {"var", "num"} -> x.t
             [] x.n \in {"+", "-", "*", "/"} -> "(" \o Text(x.a[1]) \o x.n \o Text(x.a[2]) \o ")"
             [] x.n = "neg" -> "(-" \o Text(x.a[1]) \o ")"
             [] OTHER -> x.n \o "(" \o Text(x.a[1]) \o ")"
Times == {<<[op |-> "mexpr", M |-> "m", ast |-> x, env |-> [a |-> "1.5"], text |-> "a=1.5; " \o Text(x)]>> \o [i \in 1..3 |-> [op |-> "mval", M |-> "m", t |-> <<"0.5", "-2.0", "3.0">>[i]]] : x \in Trees(Depth)}
Amgx == {<<[op |-> "amgx", name |-> n, tol |-> t, itr |-> k, abs |-> b]>> : n \in DOMAIN Solver \cup {"", "DEFAULT", "pcg", "pcg_v "}, t \in {"1e-6", "2.5e-11"}, k \in {1, 777}, b \in {"yes", "no", "none"}}
        \cup {<<[op |-> "amgx", name |-> n, tol |-> "none", itr |-> 0, abs |-> "none"]>> : n \in DOMAIN Solver}

Init == ops \in (CASE Kind = "elements" -> Elements [] Kind = "derive" -> Derivs [] Kind = "time" -> Times [] OTHER -> Amgx)
Next == FALSE /\ UNCHANGED ops
Spec == Init /\ [][Next]_ops

\* the fields of a node fill its degrees of freedom, each at its own offset
Partition == Kind = "elements" => \A p \in Phys, d \in 1..3 :
  LET fs == Fields(Base(p, d), d)  t == Traits(p, d) IN
  /\ \A i \in 1..Len(fs) : Offset(fs, fs[i][1]) + fs[i][2] <= t.dofs
  /\ \A i, j \in 1..Len(fs) : i < j => Offset(fs, fs[i][1]) + fs[i][2] <= Offset(fs, fs[j][1])
  /\ t.cell = t.dofs * t.nodes
\* every evaluation but the residual differentiates exactly one argument, every argument is differentiated by one evaluation
OneArgument == Kind = "elements" => \A f \in Fams : \A n \in {Args(f)[i] : i \in 1..Len(Args(f))} : Cardinality({k \in Kinds(f) : Active(k) = n}) = 1
Emit == PrintT("SCEN " \o ToJson(ops))
=============================================================================
