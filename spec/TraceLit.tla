------------------------------ MODULE TraceLit ------------------------------
(* Literal texts and what the literal parser makes of them.  Each line:      *)
(*   s        the text (of the form of a literal)                            *)
(*   outcome  "ok" with v, or "none" (out of range)                          *)
EXTENDS Asm, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, why

Verdict(o) ==
  LET x == Literal(o.s)
  IN CASE Num(o.s, 1) # Len(o.s) + 1 -> "not a literal"
       [] o.outcome \notin {"ok", "none"} -> "crash"
       [] x.t = "bad" -> IF o.outcome = "none" THEN "ok" ELSE "out of range accepted: " \o o.s
       [] o.outcome = "none" -> "rejected: " \o o.s
       [] o.v # x.w -> "value of " \o o.s
       [] OTHER -> "ok"

Init == tid \in 1..Len(Runs) /\ why = ""
Judge == why = "" /\ why' = Verdict(Runs[tid]) /\ UNCHANGED tid
Next == Judge
Spec == Init /\ [][Next]_<<tid, why>>
Conforms == why \in {"", "ok"}
=============================================================================
