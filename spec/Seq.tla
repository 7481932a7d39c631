-------------------------------- MODULE Seq --------------------------------
(* The sequential architectures (seq_std, seq_plus_std): one transition is   *)
(* one clock cycle that fetches and completes one instruction.  The same     *)
(* deviations from the ISA as in Pipe; the state is that of Y86.             *)
EXTENDS Pipe

\* One cycle in state s (never stopped before); why the cycle stops the machine is in st
SeqCycle(s, img) ==
  LET f == Fetch(img, s.m, s.pc)
      a == HwReg(s.r, SrcA(f.ic, f.ra))
      b == HwReg(s.r, SrcB(f.ic, f.rb))
      aa == AluA(f.ic, a, f.c)
      bb == AluB(f.ic, b)
      fun == IF f.ic = OPQ THEN f.fn ELSE 0
      e == Alu(fun, aa, bb)
      cc == IF f.ic = OPQ THEN Flags(fun, aa, bb, e) ELSE s.cc
      cnd == Cond(f.fn, cc)
      ad == CASE f.ic \in {RMMOVQ, PUSHQ, CALL, MRMOVQ} -> e
              [] f.ic \in {POPQ, RET} -> a [] OTHER -> W0
      merr == ~OkAddr(ad)
      mv == IF MemRead(f.ic) /\ ~merr THEN Read8(img, s.m, ad[1]) ELSE W0
      data == IF f.ic = CALL THEN f.p ELSE a
      m == IF MemWrite(f.ic) /\ ~merr THEN Write8(s.m, ad[1], data) ELSE s.m
      de == IF f.ic = CMOVX /\ ~cnd THEN RNONE ELSE DstE(f.ic, f.rb)
      r == SetReg(SetReg(s.r, de, e), DstM(f.ic, f.ra), mv)
      st == IF f.st = "adr" \/ merr THEN "adr" ELSE f.st
  IN [pc |-> IF f.ic = CALL \/ (f.ic = JX /\ cnd) THEN f.c
             ELSE IF f.ic = RET THEN mv ELSE f.p,
      r |-> r, cc |-> cc, m |-> m,
      st |-> IF st = "aok" THEN "run" ELSE st, n |-> s.n + 1]

\* The named signals of the cycle s -> t (as in Pipe)
SeqSigs(s, t, img) ==
  LET f == Fetch(img, s.m, s.pc)
      sa == SrcA(f.ic, f.ra)
      sb == SrcB(f.ic, f.rb)
      a == HwReg(s.r, sa)
      b == HwReg(s.r, sb)
      aa == AluA(f.ic, a, f.c)
      bb == AluB(f.ic, b)
      fun == IF f.ic = OPQ THEN f.fn ELSE 0
      e == Alu(fun, aa, bb)
      cnd == Cond(f.fn, t.cc)
      ad == CASE f.ic \in {RMMOVQ, PUSHQ, CALL, MRMOVQ} -> e
              [] f.ic \in {POPQ, RET} -> a [] OTHER -> W0
  IN ("pc" :> s.pc) @@ ("icode" :> WOf(f.ic)) @@ ("instr_valid" :> (f.ic <= POPQ))
     @@ (IF f.st # "adr" THEN ("ifun" :> WOf(f.fn)) @@ ("valP" :> f.p) ELSE <<>>)
     @@ ("srcA" :> WOf(sa)) @@ ("srcB" :> WOf(sb)) @@ ("dstM" :> WOf(DstM(f.ic, f.ra)))
     @@ ("dstE" :> WOf(IF f.ic = CMOVX /\ ~cnd THEN RNONE ELSE DstE(f.ic, f.rb)))
     @@ ("alufun" :> WOf(fun)) @@ ("set_cc" :> (f.ic = OPQ))
     @@ (IF f.ic \in {CMOVX, IRMOVQ, RMMOVQ, MRMOVQ, OPQ, CALL, PUSHQ, RET, POPQ}
         THEN ("aluA" :> aa) @@ ("aluB" :> bb) @@ ("valE" :> e) ELSE <<>>)
     @@ ("cc" :> CcText(t.cc)) @@ (IF f.st # "adr" THEN "cnd" :> cnd ELSE <<>>)
     @@ ("mem_read" :> MemRead(f.ic)) @@ ("mem_write" :> MemWrite(f.ic))
     @@ (IF MemRead(f.ic) \/ MemWrite(f.ic) THEN "mem_addr" :> ad ELSE <<>>)
     @@ (IF MemWrite(f.ic) THEN "mem_data" :> (IF f.ic = CALL THEN f.p ELSE a) ELSE <<>>)
     @@ ("valM" :> (IF MemRead(f.ic) /\ OkAddr(ad) THEN Read8(img, s.m, ad[1]) ELSE W0))
     @@ ("stat" :> (IF t.st = "run" THEN "Aok" ELSE StatText(t.st))) @@ ("prog_term" :> (t.st # "run"))
     @@ (IF f.st # "adr" THEN "new_pc" :> t.pc ELSE <<>>)
     @@ (IF f.ic \in {IRMOVQ, RMMOVQ, MRMOVQ, JX, CALL} THEN "valC" :> f.c ELSE <<>>)
=============================================================================
