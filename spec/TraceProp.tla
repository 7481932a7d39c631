----------------------------- MODULE TraceProp -----------------------------
(* Validation of evaluation orders computed by the real code.  Each line:    *)
(*   ops      the declarations, in order                                     *)
(*   outcome  "ok" or how the description was refused                        *)
(*   order    <<name, level>> in evaluation order;  cost (-1: not reported)  *)
EXTENDS Prop, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, g, why
vars == <<tid, l, g, why>>

Init == tid \in 1..Len(Runs) /\ l = 0 /\ g = Empty /\ why = ""

Step == /\ l < Len(Runs[tid].ops)
        /\ g' = Declare(g, Runs[tid].ops[l + 1])
        /\ l' = l + 1 /\ UNCHANGED <<tid, why>>

Judge ==
  /\ l = Len(Runs[tid].ops) /\ why = ""
  /\ LET o == Runs[tid]
     IN why' = CASE o.outcome \notin {"ok", "panic"} -> o.outcome
                 [] Refused(g) -> IF o.outcome = "ok"
                                  THEN IF g.dup THEN "duplicate name accepted"
                                       ELSE IF g.ghost THEN "name of nothing accepted"
                                       ELSE IF Sourceless(g) THEN "input without source accepted"
                                       ELSE "cycle accepted"
                                  ELSE "ok"
                 [] o.outcome # "ok" -> "valid description refused"
                 [] OTHER -> OrderVerdict(g, o.order, o.cost)
  /\ UNCHANGED <<tid, l, g>>

Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
Conforms == why \in {"", "ok"}
=============================================================================
