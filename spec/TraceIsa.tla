------------------------------ MODULE TraceIsa ------------------------------
(* Whole-run validation.  Each line of the trace file is one program         *)
(*   img, ext, max, chunk                                                    *)
(*   isa = << the result of the reference simulator >>  or << >>             *)
(*   hw  = << [arch, outcome, fin] ... >>  the end of the hardware runs      *)
(* The specification executes the program, one instruction per transition,   *)
(* and then compares.  Ghost variables count the events that cost pipeline   *)
(* cycles.                                                                   *)
EXTENDS Seq, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, s,
          ld,      \* register loaded by the previous instruction (RNONE if none)
          pen,     \* penalty cycles of the pipeline so far
          hwok,    \* the program so far means the same on the hardware
          clean,   \* no executed instruction had been overwritten by the program
          why
vars == <<tid, s, ld, pen, hwok, clean, why>>

Init == /\ tid \in 1..Len(Runs)
        /\ s = Init0 /\ ld = RNONE /\ pen = 0 /\ hwok = TRUE /\ clean = TRUE
        /\ why = ""

\* What the instruction at x is, for the ghosts (NOP-like outside memory)
Cur(x, img) == IF IsSmall(x.pc) THEN Dec(img, x.m, x.pc[1])
               ELSE NoIns

\* One instruction: the state g = [s, ld, pen, hwok, clean] after it
Adv(g, run) ==
  LET x == g.s
      d == Cur(x, run.img)
      t == ExecD(x, d, run.img, run.ext)
      fetched == ~(t.st = "ins" \/ (t.st = "adr" /\ (~IsSmall(x.pc) \/ x.pc[1] + d.len > MEMSIZE)))
      uses == {SrcA(d.ic, d.ra), SrcB(d.ic, d.rb)} \ {RNONE}
  IN [s |-> t,
      ld |-> IF d.ic \in {MRMOVQ, POPQ} THEN d.ra ELSE RNONE,
      pen |-> g.pen + (IF fetched /\ g.ld \in uses THEN 1 ELSE 0)
                    + (IF d.ic = JX /\ t.st = "run" /\ ~Cond(d.fn, x.cc) THEN 2 ELSE 0)
                    + (IF d.ic = RET /\ t.st = "run" THEN 3 ELSE 0),
      hwok |-> g.hwok /\ d.ic # IOPQ /\ t.st # "und" /\ ~(t.st = "ins" /\ d.ic <= POPQ),
      clean |-> g.clean /\ ~(DOMAIN x.m # {} /\ IsSmall(x.pc)
                             /\ \E k \in 0..(d.len - 1) : x.pc[1] + k \in DOMAIN x.m)]

\* Long runs take several instructions in one transition (TLC's behaviours are
\* limited to 65535 states)
RECURSIVE AdvN(_, _, _)
AdvN(g, run, k) ==
  IF k = 0 \/ g.s.st # "run" \/ g.s.n >= run.max THEN g
  ELSE LET h == Adv(g, run) IN AdvN(TLCEval(h), run, k - 1)

Step ==
  /\ s.st = "run" /\ s.n < Runs[tid].max
  /\ LET g == AdvN([s |-> s, ld |-> ld, pen |-> pen, hwok |-> hwok, clean |-> clean], Runs[tid], Runs[tid].chunk)
     IN s' = g.s /\ ld' = g.ld /\ pen' = g.pen /\ hwok' = g.hwok /\ clean' = g.clean
  /\ UNCHANGED <<tid, why>>

---------------------------------------------------------------------------
ToSet(q) == {q[i] : i \in DOMAIN q}
MemChanges(img, m) == {<<a, m[a]>> : a \in {b \in DOMAIN m : m[b] # ImgByte(img, b)}}
RegsAre(q, r) == \A i \in 0..14 : q[i + 1] = r[i]
Cc(c) == <<c[1], c[2], c[3]>>

\* The reference simulator
IsaVerdict(o, img) ==
  CASE s.st = "und" -> IF o.outcome \in {"panic", "abort"} THEN "isa: crash" ELSE "ok"
    [] o.outcome \notin {"ok", "err"} -> "isa: " \o o.outcome
    [] s.st # "hlt" -> IF o.outcome = "err" THEN "ok" ELSE "isa: fault not reported"
    [] o.outcome # "ok" -> "isa: error for a legal program"
    [] ~RegsAre(o.regs, s.r) -> "isa: registers"
    [] <<o.zf, o.sf, o.of>> # s.cc -> "isa: condition codes"
    [] ToSet(o.m) # MemChanges(img, s.m) -> "isa: memory"
    [] o.pc # s.pc -> "isa: pc"
    [] o.n # s.n -> "isa: number of instructions"
    [] OTHER -> "ok"

StatName(st) == CASE st = "hlt" -> "Hlt" [] st = "adr" -> "Adr" [] st = "ins" -> "Ins" [] OTHER -> "?"

\* A hardware simulator: the state after the stopping instruction
HwVerdict(o, img) ==
  LET f == SeqCycle([s EXCEPT !.st = "run"], img)
      pipe == o.arch = "pipe_std"
      cycles == IF pipe THEN s.n + 4 + pen ELSE s.n
      n == o.arch \o ": "
  IN CASE ~hwok \/ (pipe /\ ~clean) -> "ok"
       [] o.outcome # "ok" -> n \o o.outcome
       [] ~o.fin.term -> n \o "not terminated"
       [] ~RegsAre(o.fin.regs, f.r) -> n \o "registers"
       [] ToSet(o.fin.m) # MemChanges(img, f.m) -> n \o "memory"
       [] o.fin.cc # <<>> /\ Cc(o.fin.cc) # f.cc -> n \o "condition codes"
       [] o.fin.stat # "" /\ o.fin.stat # StatName(f.st) -> n \o "status"
       [] o.fin.count # cycles -> n \o "cycle count"
       [] OTHER -> "ok"

RECURSIVE First(_)
First(q) == IF q = <<>> THEN "ok" ELSE IF Head(q) # "ok" THEN Head(q) ELSE First(Tail(q))

Judge ==
  /\ why = "" /\ s.st # "run"
  /\ LET run == Runs[tid]
         vi == [i \in DOMAIN run.isa |-> IsaVerdict(run.isa[i], run.img)]
         vh == [i \in DOMAIN run.hw |-> HwVerdict(run.hw[i], run.img)]
     IN why' = First(vi \o vh)
  /\ UNCHANGED <<tid, s, ld, pen, hwok, clean>>

Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
Conforms == why \in {"", "ok"}
=============================================================================
