------------------------------ MODULE Monitor ------------------------------
(* Validation of a recorded trace of the implementation.  Each line of the    *)
(* trace is one event: a public call with its arguments and everything that   *)
(* could be observed when it returned (or threw).  Judge(s, e), supplied by   *)
(* the domain specification, is the action: it decides whether the event is   *)
(* one the specification allows in abstract state s, and gives the successor. *)
(*   verdict = [v |-> "ok" | "bad" | "known", why |-> STRING, st |-> state]   *)
(* The monitor consumes the whole trace: a rejected event is reported, the    *)
(* rest of its scenario (whose abstract state is no longer known) is skipped  *)
(* and the next scenario is judged from the initial state.                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Judge(_, _), St0

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l, st, poisoned

Verdict(s, e) == IF e.crash THEN [v |-> "bad", why |-> "the call did not return", st |-> s] ELSE Judge(s, e)

MInit == l = 1 /\ st = St0 /\ poisoned = FALSE

MNext ==
  /\ l <= N
  /\ l' = l + 1
  /\ LET e == Trace[l]
         s == IF e.i = 1 THEN St0 ELSE st
         p == e.i # 1 /\ poisoned
     IN IF p THEN /\ PrintT("SKIP " \o ToString(l))
                  /\ UNCHANGED <<st, poisoned>>
        ELSE LET r == Verdict(s, e)
             IN /\ r.v # "ok" => PrintT("VERDICT " \o ToJson([l |-> l, v |-> r.v, why |-> r.why]))
                /\ poisoned' = (r.v = "bad")
                /\ st' = r.st
  /\ l = N => PrintT("CONSUMED " \o ToString(N))

MSpec == MInit /\ [][MNext]_<<l, st, poisoned>>

Accepted == TLCGet("stats").diameter - 1 = N
=============================================================================
