------------------------------- MODULE MC_Comm -------------------------------
(* The protocol of collective operations: every process runs the program, a   *)
(* sequence of reductions over the world and over a split of it, at its own   *)
(* pace; it leaves a reduction only when all members of its machine entered   *)
(* it, with the reduction of their values.  Every interleaving is explored.   *)
EXTENDS Comm, Json

CONSTANTS Procs, Steps, Kind

VARIABLES sp, prog, pc, entered, result
vars == <<sp, prog, pc, entered, result>>

P == 1..Procs
Colors == {c \in [P -> -1..1] : c[1] >= 0}
\* keys forward or backward
Keys == {[p \in P |-> p], [p \in P |-> -p]}
Value(p, k) == ToString(((p * 5 + k * 3) % 7) - 3)
Init == /\ sp \in [color : Colors, key : Keys]
        /\ prog \in [1..Steps -> {"world", "s"} \X {"max", "min", "sum"}]
        /\ pc = [p \in P |-> 1] /\ entered = [p \in P |-> FALSE] /\ result = [p \in P |-> <<>>]
Mach(k) == IF prog[k][1] = "world" THEN WorldM(Procs) ELSE sp
Skip(p) == pc[p] <= Steps /\ ~Joined(Mach(pc[p]), p) /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ result' = [result EXCEPT ![p] = Append(@, "none")] /\ UNCHANGED <<sp, prog, entered>>
Enter(p) == pc[p] <= Steps /\ ~entered[p] /\ Joined(Mach(pc[p]), p) /\ entered' = [entered EXCEPT ![p] = TRUE] /\ UNCHANGED <<sp, prog, pc, result>>
\* all members have entered this reduction (those that already left it included)
There(p) == \A q \in Members(Mach(pc[p]), p) : pc[q] > pc[p] \/ (pc[q] = pc[p] /\ entered[q])
Leave(p) ==
  /\ entered[p] /\ There(p)
  /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ entered' = [entered EXCEPT ![p] = FALSE]
  /\ result' = [result EXCEPT ![p] = Append(@, Reduce(prog[pc[p]][2], Contrib(Mach(pc[p]), p, [q \in P |-> Value(q, pc[p])])))]
  /\ UNCHANGED <<sp, prog>>
Next == \E p \in P : Skip(p) \/ Enter(p) \/ Leave(p)
Spec == Init /\ [][Next]_vars

Done == \A p \in P : pc[p] > Steps
\* nobody waits for ever
NoDeadlock == Done \/ \E p \in P : pc[p] <= Steps /\ (~entered[p] \/ There(p))
\* all members of a machine leave a reduction with the same value, and the extremes bound every contribution
Agreement == \A k \in 1..Steps, p, q \in P :
  pc[p] > k /\ pc[q] > k /\ Joined(Mach(k), p) /\ q \in Members(Mach(k), p) => REq(result[p][k], result[q][k])
Bounds == \A k \in 1..Steps, p \in P : pc[p] > k /\ Joined(Mach(k), p) =>
  \A q \in Members(Mach(k), p) : (prog[k][2] = "max" => RLeq(Value(q, k), result[p][k])) /\ (prog[k][2] = "min" => RLeq(result[p][k], Value(q, k)))
\* nobody runs ahead of a reduction that a fellow has not entered
Lockstep == \A p \in P, k \in 1..Steps : pc[p] > k /\ Joined(Mach(k), p) => \A q \in Members(Mach(k), p) : pc[q] > k \/ (pc[q] = k /\ entered[q])
Ranks == \A p, q \in P : Joined(sp, p) /\ q \in Members(sp, p) /\ p # q => Rank(sp, p) # Rank(sp, q) /\ Rank(sp, p) \in 0..(Size(sp, p) - 1)

Emit == (Done /\ Procs = 4) => PrintT("SCEN " \o ToJson(<<[op |-> "split", M |-> "s", color |-> sp.color, key |-> sp.key], [op |-> "who", M |-> "s"]>>
          \o [k \in 1..Steps |-> [op |-> "reduce", M |-> prog[k][1], kind |-> prog[k][2], v |-> [p \in P |-> Value(p, k)]]]))
=============================================================================
