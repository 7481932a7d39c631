------------------------------ MODULE TraceHw ------------------------------
(* Cycle-level trace validation of the hardware simulators.  Each line of    *)
(* the trace file is one recorded run                                        *)
(*   img, arch, outcome, start, cost, stop,                                  *)
(*   cycles = << [pc, r, m, t, c, k] ... >>                                  *)
(* where r / m are the registers / bytes that changed in the cycle, t is the *)
(* termination flag, c the cycle count and k the cost of a cycle.  The run   *)
(* must be a behaviour of Seq or Pipe, cycle for cycle; stop: the run was    *)
(* driven until termination, which must not come later than in the model.    *)
(*                                                                           *)
(* Whether a fetch sees a store of the same cycle is not determined, so for  *)
(* the pipeline s is the set of the states the machine may be in.            *)
EXTENDS Seq, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, s, why
vars == <<tid, l, s, why>>

IsPipe(t) == Runs[t].arch = "pipe_std"

\* {<<i, new>>} for the entries of g that differ from f (f may have a smaller domain)
RegDiff(f, g) == {<<i, g[i]>> : i \in {j \in 0..15 : f[j] # g[j]}}
MemDiff(img, f, g) ==
  IF f = g THEN {} ELSE
  {<<a, g[a]>> : a \in {b \in DOMAIN g : Byte(img, f, b) # g[b]}}

ToSet(q) == {q[i] : i \in DOMAIN q}

\* Does the observation o fit the step from a (old state) by t (new state, pc)?
Fits(o, k, run, old, t, pc, term) ==
  CASE o.c # k -> "cycle count"
    [] o.pc # pc -> "program counter"
    [] ToSet(o.r) # RegDiff(old.r, t.r) -> "registers"
    [] ToSet(o.m) # MemDiff(run.img, old.m, t.m) -> "memory"
    [] o.t # term -> "termination"
    [] o.k # run.cost -> "cycle cost"
    [] OTHER -> "ok"

Fresh(run) ==
  /\ run.start.regs = [i \in 1..16 |-> W0]
  /\ ~run.start.term /\ run.start.count = 0 /\ run.start.m = <<>>
  /\ run.cost > 0

Init == /\ tid \in 1..Len(Runs)
        /\ l = 0
        /\ s = IF IsPipe(tid) THEN {PInit} ELSE {Init0}
        /\ why = IF Runs[tid].outcome # "ok" THEN Runs[tid].outcome
                 ELSE IF Fresh(Runs[tid]) THEN "ok" ELSE "start state"

More == l < Len(Runs[tid].cycles) /\ why = "ok"

\* possible steps: [nx, res]
SeqSteps(run, o) ==
  {LET t == SeqCycle(x, run.img)
   IN [nx |-> [t EXCEPT !.st = "run"], res |-> Fits(o, l + 1, run, x, t, x.pc, t.st # "run")] : x \in s}

PipeSteps(run, o) ==
  UNION {{LET t == Cycle(x, run.img, nf)
          IN [nx |-> t.nx, res |-> Fits(o, l + 1, run, x, t, t.pc, t.term)]
            : nf \in IF StoreHitsFetch(x) THEN {FALSE, TRUE} ELSE {FALSE}} : x \in s}

Step ==
  /\ More
  /\ LET run == Runs[tid]  o == run.cycles[l + 1]
         z == IF IsPipe(tid) THEN PipeSteps(run, o) ELSE SeqSteps(run, o)
         good == {x \in z : x.res = "ok"}
     IN /\ s' = {x.nx : x \in good}
        /\ why' = IF good # {} THEN "ok" ELSE (CHOOSE x \in z : TRUE).res
  /\ l' = l + 1 /\ tid' = tid

Next == Step
Spec == Init /\ [][Next]_vars
Conforms == why = "ok"
=============================================================================
