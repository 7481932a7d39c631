------------------------------- MODULE MCPipe -------------------------------
(* The pipeline implements the ISA: exhaustive over all programs             *)
(*     prefix ; l_1 ; ... ; l_k ; suffix                                     *)
(* with letters from an alphabet (file ALPHA, shared with the driver that    *)
(* runs the same programs on the real simulators).  A letter is [b, t]: its  *)
(* bytes and, if t # 0, "jump to the start of the t-th following             *)
(* instruction" (stored in its last eight bytes).  k <= K letters.           *)
EXTENDS Seq, Json, IOUtils

A == JsonDeserialize(IOEnv.ALPHA)
Letters == A.letters
NL == Len(Letters)

Cat(q) == LET RECURSIVE C(_)
              C(i) == IF i > Len(q) THEN <<>> ELSE q[i] \o C(i + 1)
          IN C(1)

RECURSIVE StartOf(_, _)
StartOf(w, i) == IF i <= 1 THEN Len(A.prefix) ELSE StartOf(w, i - 1) + Len(Letters[w[i - 1]].b)
\* beyond the last letter: the suffix
LetterAt(w, i) ==
  LET x == Letters[w[i]]
      tgt == StartOf(w, IF i + x.t > Len(w) THEN Len(w) + 1 ELSE i + x.t)
  IN IF x.t = 0 THEN x.b
     ELSE SubSeq(x.b, 1, Len(x.b) - 8) \o <<tgt % 256, tgt \div 256, 0, 0, 0, 0, 0, 0>>

Image(w) == <<<<0, A.prefix \o Cat([i \in DOMAIN w |-> LetterAt(w, i)]) \o A.suffix>>>> \o A.data

Words(k) == [1..k -> 1..NL]

VARIABLES w, img, p, cyc, done
vars == <<w, img, p, cyc, done>>

Init == /\ w \in Words(A.k)
        /\ A.only = <<>> \/ \E i \in DOMAIN w : w[i] \in {A.only[j] : j \in DOMAIN A.only}
        /\ img = Image(w)
        /\ p = PInit /\ cyc = 0 /\ done = "no"

\* ISA execution to the end: final state, the state before it, penalty cycles
RECURSIVE IsaRun(_, _, _)
IsaRun(s, ld, pen) ==
  IF s.n >= 40 THEN [s |-> s, b |-> s, pen |-> 0, seq |-> TRUE]
  ELSE
  LET t == Exec(s, img, FALSE)
      q == SeqCycle(s, img)
      d == IF IsSmall(s.pc) THEN Dec(img, s.m, s.pc[1])
           ELSE [ic |-> NOP, fn |-> 0, ra |-> RNONE, rb |-> RNONE, len |-> 1, v |-> W0]
      fetched == IsSmall(s.pc) /\ d.ic <= POPQ
      uses == {SrcA(d.ic, d.ra), SrcB(d.ic, d.rb)} \ {RNONE}
      pen1 == pen + (IF fetched /\ ld \in uses THEN 1 ELSE 0)
                  + (IF d.ic = JX /\ t.st = "run" /\ ~Cond(d.fn, s.cc) THEN 2 ELSE 0)
                  + (IF d.ic = RET /\ t.st = "run" THEN 3 ELSE 0)
      ld1 == IF d.ic \in {MRMOVQ, POPQ} THEN d.ra ELSE RNONE
      same == t = q
      \* encodings on which the hardware deliberately differs from the ISA
      differs == t.st = "und" \/ (t.st = "ins" /\ d.ic <= POPQ)
  IN IF differs THEN [s |-> [t EXCEPT !.st = "und"], b |-> s, pen |-> 0, seq |-> TRUE]
     ELSE IF t.st # "run" THEN [s |-> t, b |-> s, pen |-> pen1, seq |-> t.st = q.st]
     ELSE IF ~same THEN [s |-> t, b |-> s, pen |-> pen1, seq |-> FALSE]
     ELSE IsaRun(t, ld1, pen1)

Agrees(c, pp) ==
  LET e == IsaRun(Init0, RNONE, 0)
      f == SeqCycle([e.b EXCEPT !.st = "run"], img)
  IN CASE ~e.seq -> "seq"
       [] e.s.n >= 40 -> "long"
       [] e.s.st = "und" -> "ok"
       [] pp.stat # e.s.st -> "stat"
       [] pp.r # f.r -> "regs"
       [] pp.m # f.m -> "mem"
       [] pp.cc # f.cc -> "cc"
       [] c # e.s.n + 4 + e.pen -> "cycles"
       [] OTHER -> "ok"

\* A program with 40 or more instructions loops (4 cycles are the most one takes)
Endless == IF IsaRun(Init0, RNONE, 0).s.n >= 40 THEN "ok" ELSE "endless"

Step ==
  /\ done = "no"
  /\ LET c == Cycle(p, img, FALSE)
     IN /\ p' = c.nx
        /\ cyc' = cyc + 1
        /\ done' = IF c.dconf THEN "stall and bubble"
                   ELSE IF c.term THEN Agrees(cyc + 1, c)
                   ELSE IF cyc >= 165 THEN Endless ELSE "no"
  /\ UNCHANGED <<w, img>>

Next == Step
Spec == Init /\ [][Next]_vars
Correct == done \in {"no", "ok"}
=============================================================================
