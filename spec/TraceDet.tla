------------------------------ MODULE TraceDet ------------------------------
(* Determinism (self-composition): each line holds the recordings of the     *)
(* same experiment, made in one or several processes,                        *)
(*   what, runs = << sequence of observations, ... >>                        *)
(* and all of them must be the same behaviour, step by step.                 *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, why
vars == <<tid, l, why>>

Init == tid \in 1..Len(Runs) /\ l = 0 /\ why = "ok"

R == Runs[tid].runs

Step ==
  /\ why = "ok" /\ \E i \in DOMAIN R : l < Len(R[i])
  /\ l' = l + 1 /\ tid' = tid
  /\ why' = IF \E i \in DOMAIN R : Len(R[i]) <= l THEN Runs[tid].what \o ": different length"
            ELSE IF \E i \in DOMAIN R : R[i][l + 1] # R[1][l + 1]
                 THEN Runs[tid].what \o ": different at step " \o ToString(l + 1)
                 ELSE "ok"

Next == Step
Spec == Init /\ [][Next]_vars
Conforms == why = "ok"
=============================================================================
