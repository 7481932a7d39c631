-------------------------------- MODULE Dap --------------------------------
(* A debug session: what the server keeps for a client, which requests it    *)
(* honours, and how execution proceeds and stops.  Sessions share nothing.   *)
(*                                                                           *)
(* Session state d:                                                          *)
(*   prog   number of the launched program, 0 before a launch                *)
(*   path   its path                                                         *)
(*   bps    breakpoints: set of [a (address), id]                            *)
(*   n      cycles executed                                                  *)
(*   x      machine: nxt (state before the next cycle), old and t (state     *)
(*          before and result of the last cycle), pc, r, term                *)
(* A program: [ok, at (line -> address, -1 if none), m (initial memory)].    *)
(* A request q: cmd, and of its arguments thread, frame, ref, start, lines,  *)
(* haslines, filters, path, prog (number of the program that is in the file  *)
(* named by path, 0 if there is none); odd: the arguments are not what the   *)
(* protocol demands for this command.                                        *)
EXTENDS Asm

Q == INSTANCE Signals

NoImg == <<>>
IsPipe(arch) == arch = "pipe_std"

Machine0(arch, m0) ==
  LET i == IF IsPipe(arch) THEN Q!PInit ELSE Q!Init0
  IN [nxt |-> [i EXCEPT !.m = m0], old |-> <<>>, t |-> <<>>, pc |-> W0, r |-> i.r, term |-> FALSE]

\* one clock cycle
Tick(arch, x) ==
  IF IsPipe(arch)
  THEN LET t == Q!Cycle(x.nxt, NoImg, FALSE)
       IN [nxt |-> t.nx, old |-> x.nxt, t |-> t, pc |-> t.pc, r |-> t.r, term |-> t.term]
  ELSE LET t == Q!SeqCycle(x.nxt, NoImg)
       IN [nxt |-> [t EXCEPT !.st = "run"], old |-> x.nxt, t |-> t, pc |-> x.nxt.pc, r |-> t.r,
           term |-> t.st # "run"]

\* The next cycle is not determined (a fetch of bytes stored in the same cycle)
Undetermined(arch, x) == IsPipe(arch) /\ Q!StoreHitsFetch(x.nxt)

Idle == [prog |-> 0, path |-> "", bps |-> {}, n |-> 0, x |-> <<>>]

---------------------------------------------------------------------------
\* Requests

Thread == 1
Frame == 1

\* may q succeed, may it fail (ns: number of stages of the architecture)
May(q, d, progs, ns) ==
  LET has == d.prog # 0
  IN CASE q.odd -> {FALSE}
       [] q.cmd = "launch" -> {q.prog # 0 /\ progs[q.prog].ok}
       [] q.cmd = "configurationDone" -> {has}
       [] q.cmd = "setBreakpoints" -> {has /\ q.haslines /\ q.path = d.path}
       [] q.cmd = "setExceptionBreakpoints" -> {~q.filters}
       [] q.cmd = "threads" -> {TRUE}
       [] q.cmd = "stackTrace" -> IF q.thread = Thread /\ ~has /\ q.start > 0 THEN {TRUE, FALSE} ELSE {has /\ q.thread = Thread}
       [] q.cmd = "scopes" -> {has /\ q.frame = Frame}
       [] q.cmd = "variables" -> {has /\ q.ref \in 1..(ns + 1)}
       [] q.cmd \in {"next", "continue"} -> {has /\ q.thread = Thread}
       [] OTHER -> {FALSE}

\* what follows a granted request: nothing or an execution ended by a stop event
Follows(q) == CASE q.cmd = "configurationDone" -> "entry"
                [] q.cmd = "next" -> "step"
                [] q.cmd = "continue" -> "run"
                [] OTHER -> "none"

\* address of a line, -1 if it has none
LineAddr(p, i) == IF i \in DOMAIN p.at THEN p.at[i] ELSE -1

\* breakpoints set by q when ids are given to its lines
NewBps(q, p, ids) == {[a |-> LineAddr(p, q.lines[i]), id |-> ids[i]] : i \in {j \in DOMAIN q.lines : LineAddr(p, q.lines[j]) >= 0}}

Granted(q, d, progs, arch, ids) ==
  CASE q.cmd = "launch" -> [d EXCEPT !.prog = q.prog, !.path = q.path, !.n = 0, !.x = Machine0(arch, progs[q.prog].m)]
    [] q.cmd = "setBreakpoints" -> [d EXCEPT !.bps = NewBps(q, progs[d.prog], ids)]
    [] OTHER -> d

---------------------------------------------------------------------------
\* Execution: the decision after each cycle

Hit(d) == {b \in d.bps : WOfInt(b.a) = d.x.pc}

\* before a cycle: stop on a machine that has terminated
\* after a cycle: kind is "step" or "run"
StopAfter(d, kind, max) ==
  CASE Hit(d) # {} -> "breakpoint"
    [] kind = "step" \/ d.n >= max -> "step"
    [] OTHER -> ""

Advance(d, arch) == [d EXCEPT !.x = Tick(arch, d.x), !.n = @ + 1]

---------------------------------------------------------------------------
\* What is shown at a stop

\* the line a stop is shown at: the first with its address; 0 for an address of no line
ShownLine(d, p) == LET z == {i \in DOMAIN p.at : p.at[i] >= 0 /\ WOfInt(p.at[i]) = d.x.pc}
                   IN IF z = {} THEN 0 ELSE CHOOSE i \in z : \A j \in z : i <= j

Sigs(d, arch) == IF d.x.t = <<>> THEN <<>>
                 ELSE IF IsPipe(arch) THEN Q!PipeSigs(d.x.old, d.x.t)
                 ELSE Q!SeqSigs(d.x.old, d.x.t, NoImg)
=============================================================================
