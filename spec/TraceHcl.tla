------------------------------ MODULE TraceHcl ------------------------------
(* Cycle-level validation of simulated hardware descriptions.  Each line:    *)
(*   A        the description (see Hcl)                                      *)
(*   outcome, cycles << [v: << <<signal, value>> ... >>, pc, t, c] >>        *)
(*   want     << <<title, signals declared under it>> >>                     *)
(*   secs     the same as reported, with every signal                        *)
(* Every reported signal must have the value its expression denotes, and be  *)
(* shown once, under the heading it was declared under (signals declared     *)
(* before any heading may be shown under any).                               *)
EXTENDS Hcl, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, ord, m, over, why
vars == <<tid, l, ord, m, over, why>>

Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Total(_, _)
Total(ss, i) == IF i > Len(ss) THEN 0 ELSE Len(ss[i][2]) + Total(ss, i + 1)
Sections(r) ==
  LET W == r.want  S == r.secs
  IN IF r.cycles = <<>> THEN "ok"
     ELSE IF UNION {Range(S[i][2]) : i \in DOMAIN S} # {r.A.sigs[i].n : i \in DOMAIN r.A.sigs}
             \/ Total(S, 1) # Len(r.A.sigs) THEN "signals shown"
     ELSE IF W # <<>> /\ [i \in DOMAIN S |-> S[i][1]] # [i \in DOMAIN W |-> W[i][1]] THEN "headings"
     ELSE IF \E i \in DOMAIN W : ~(Range(W[i][2]) \subseteq Range(S[i][2])) THEN "sections"
     ELSE "ok"

Init == /\ tid \in 1..Len(Runs) /\ l = 0
        /\ ord = Schedule(Nodes(Runs[tid].A))
        /\ m = MInit(Runs[tid].A) /\ over = FALSE
        /\ why = IF Runs[tid].outcome # "ok" THEN Runs[tid].outcome
                 ELSE IF Scheduled(ord) # {n.id : n \in Nodes(Runs[tid].A)} THEN "bad description"
                 ELSE Sections(Runs[tid])

Step ==
  /\ why = "ok" /\ l >= 0 /\ l < Len(Runs[tid].cycles)
  /\ ~over
  /\ LET A == Runs[tid].A
         o == Runs[tid].cycles[l + 1]
         v == Values(A, ord, 1, m, NoValues)
         bad == {i \in DOMAIN o.v : v[<<"s", o.v[i][1]>>] # o.v[i][2]}
     IN /\ why' = CASE {o.v[i][1] : i \in DOMAIN o.v} # {A.sigs[i].n : i \in DOMAIN A.sigs} -> "signals shown"
                    [] bad # {} -> "signal " \o o.v[CHOOSE i \in bad : TRUE][1]
                    [] o.c # l + 1 -> "cycle count"
                    [] o.pc # v[<<"s", A.pc>>] -> "program counter"
                    [] o.t # v[<<"s", A.term>>] -> "termination"
                    [] OTHER -> "ok"
        /\ m' = Edge(A, m, v)
        /\ over' = v[<<"s", A.term>>]
  /\ l' = l + 1 /\ UNCHANGED <<tid, ord>>

\* a run ends exactly when its termination signal says so, or at the cycle limit
Ended == /\ why = "ok" /\ l >= 0
         /\ l = Len(Runs[tid].cycles) \/ over
         /\ why' = IF over /\ l # Len(Runs[tid].cycles) THEN "runs on after termination"
                   ELSE IF ~over /\ l # Runs[tid].max THEN "stops early" ELSE "ok"
         /\ l' = -1 /\ UNCHANGED <<tid, ord, m, over>>

Next == Step \/ Ended
Spec == Init /\ [][Next]_vars
Conforms == why = "ok"
=============================================================================
