-------------------------------- MODULE Pipe --------------------------------
(* The five-stage pipelined architecture (pipe_std): one transition is one   *)
(* clock cycle.  The state p is a record                                      *)
(*   F word (predicted pc)      D, E, M, W  pipeline registers               *)
(*   r, cc, m  register file, condition codes, memory overlay                *)
(* Deliberate deviations of the hardware from the ISA are kept: function     *)
(* codes are not checked, an undefined ALU function yields 0, a stack        *)
(* instruction that faults still updates its registers, register 15 is never *)
(* written and reads as 0, and iopq is an illegal instruction.               *)
EXTENDS Y86

BubD == [st |-> "bub", ic |-> NOP, fn |-> 0, ra |-> RNONE, rb |-> RNONE, c |-> W0, p |-> W0]
BubE == [st |-> "bub", ic |-> NOP, fn |-> 0, c |-> W0, a |-> W0, b |-> W0,
         de |-> RNONE, dm |-> RNONE]
BubM == [st |-> "bub", ic |-> NOP, cnd |-> FALSE, e |-> W0, a |-> W0,
         de |-> RNONE, dm |-> RNONE]
BubW == [st |-> "bub", ic |-> NOP, e |-> W0, v |-> W0, de |-> RNONE, dm |-> RNONE]

PInit == [F |-> W0, D |-> BubD, E |-> BubE, M |-> BubM, W |-> BubW,
          r |-> [i \in 0..15 |-> W0], cc |-> <<FALSE, FALSE, FALSE>>,
          m |-> [x \in {} |-> 0]]

Exc == {"adr", "ins", "hlt"}

HwReg(r, i) == IF i = RNONE THEN W0 ELSE r[i]

\* --- fetch: instruction word at pc, as the hardware decodes it
NoFetch(pc) == [st |-> "adr", ic |-> NOP, fn |-> 15, ra |-> RNONE, rb |-> RNONE, c |-> W0,
                p |-> WInc(pc, 1)]

Fetch(img, m, pc) ==
  IF ~IsSmall(pc) THEN NoFetch(pc)
  ELSE LET d == Dec(img, m, pc[1])
           ok == d.ic <= POPQ
           len == IF ok THEN d.len ELSE 1
       IN IF pc[1] + len > MEMSIZE THEN NoFetch(pc)
          ELSE [st |-> IF ~ok THEN "ins" ELSE IF d.ic = HALT THEN "hlt" ELSE "aok",
                ic |-> d.ic, fn |-> d.fn,
                ra |-> IF ok THEN d.ra ELSE RNONE, rb |-> IF ok THEN d.rb ELSE RNONE,
                c |-> d.v, p |-> WInc(pc, len)]

SrcA(ic, ra) == CASE ic \in {CMOVX, RMMOVQ, OPQ, PUSHQ} -> ra
                  [] ic \in {POPQ, RET} -> RSP [] OTHER -> RNONE
SrcB(ic, rb) == CASE ic \in {OPQ, RMMOVQ, MRMOVQ} -> rb
                  [] ic \in {PUSHQ, POPQ, CALL, RET} -> RSP [] OTHER -> RNONE
DstE(ic, rb) == CASE ic \in {CMOVX, IRMOVQ, OPQ} -> rb
                  [] ic \in {PUSHQ, POPQ, CALL, RET} -> RSP [] OTHER -> RNONE
DstM(ic, ra) == IF ic \in {MRMOVQ, POPQ} THEN ra ELSE RNONE

AluA(ic, a, c) == CASE ic \in {CMOVX, OPQ} -> a
                    [] ic \in {IRMOVQ, RMMOVQ, MRMOVQ} -> c
                    [] ic \in {CALL, PUSHQ} -> WNeg8
                    [] ic \in {RET, POPQ} -> W8 [] OTHER -> W0
AluB(ic, b) == IF ic \in {RMMOVQ, MRMOVQ, OPQ, CALL, PUSHQ, RET, POPQ} THEN b ELSE W0

MemRead(ic) == ic \in {MRMOVQ, POPQ, RET}
MemWrite(ic) == ic \in {RMMOVQ, PUSHQ, CALL}

\* Address of the instruction fetched in this cycle
FetchPc(p) == CASE p.M.ic = JX /\ ~p.M.cnd -> p.M.a
                [] p.W.ic = RET -> p.W.v
                [] OTHER -> p.F

\* One clock cycle; nf: the fetch sees a store made in the same cycle
Cycle(p, img, nf) ==
  LET D == p.D  E == p.E  M == p.M  W == p.W
      \* write back (visible to this cycle's reads)
      r == SetReg(SetReg(p.r, W.de, W.e), W.dm, W.v)
      \* memory
      ad == CASE M.ic \in {RMMOVQ, PUSHQ, CALL, MRMOVQ} -> M.e
              [] M.ic \in {POPQ, RET} -> M.a [] OTHER -> W0
      merr == ~OkAddr(ad)
      mst == IF merr THEN "adr" ELSE M.st
      mv == IF MemRead(M.ic) /\ ~merr THEN Read8(img, p.m, ad[1]) ELSE W0
      m == IF MemWrite(M.ic) /\ ~merr THEN Write8(p.m, ad[1], M.a) ELSE p.m
      \* execute
      aa == AluA(E.ic, E.a, E.c)
      bb == AluB(E.ic, E.b)
      fun == IF E.ic = OPQ THEN E.fn ELSE 0
      e == Alu(fun, aa, bb)
      setcc == E.ic = OPQ /\ mst \notin Exc /\ W.st \notin Exc
      cc == IF setcc THEN Flags(fun, aa, bb, e) ELSE p.cc
      cnd == Cond(E.fn, cc)
      ede == IF E.ic = CMOVX /\ ~cnd THEN RNONE ELSE E.de
      \* decode
      sa == SrcA(D.ic, D.ra)
      sb == SrcB(D.ic, D.rb)
      FwdR(s) == IF s = ede THEN e ELSE IF s = M.dm THEN mv ELSE IF s = M.de THEN M.e
                 ELSE IF s = W.dm THEN W.v ELSE IF s = W.de THEN W.e ELSE HwReg(r, s)
      va == IF D.ic \in {CALL, JX} THEN D.p ELSE FwdR(sa)
      vb == FwdR(sb)
      \* fetch
      fpc == FetchPc(p)
      f == Fetch(img, IF nf THEN m ELSE p.m, fpc)
      \* control
      loaduse == E.ic \in {MRMOVQ, POPQ} /\ E.dm \in {sa, sb}
      retin == RET \in {D.ic, E.ic, M.ic}
      mispred == E.ic = JX /\ ~cnd
      dbub == mispred \/ (~loaduse /\ retin)
      ebub == mispred \/ loaduse
  IN [pc |-> fpc, term |-> W.st \in Exc, stat |-> W.st,
      dconf |-> loaduse /\ dbub,          \* stall and bubble at once
      r |-> r, m |-> m, cc |-> cc,
      \* what can be seen of the cycle
      i |-> [f |-> f, sa |-> sa, sb |-> sb, va |-> va, vb |-> vb, aa |-> aa, bb |-> bb, fun |-> fun, e |-> e,
             setcc |-> setcc, cnd |-> cnd, ede |-> ede, ad |-> ad, mst |-> mst, mv |-> mv,
             fstall |-> loaduse \/ retin, dstall |-> loaduse, dbub |-> dbub, ebub |-> ebub,
             mbub |-> mst \in Exc \/ W.st \in Exc, wstall |-> W.st \in Exc],
      nx |-> [F |-> IF loaduse \/ retin THEN p.F
                    ELSE IF f.ic \in {JX, CALL} THEN f.c ELSE f.p,
              D |-> IF dbub THEN BubD ELSE IF loaduse THEN D ELSE f,
              E |-> IF ebub THEN BubE
                    ELSE [st |-> D.st, ic |-> D.ic, fn |-> D.fn, c |-> D.c, a |-> va, b |-> vb,
                          de |-> DstE(D.ic, D.rb), dm |-> DstM(D.ic, D.ra)],
              M |-> IF mst \in Exc \/ W.st \in Exc THEN BubM
                    ELSE [st |-> E.st, ic |-> E.ic, cnd |-> cnd, e |-> e, a |-> E.a,
                          de |-> ede, dm |-> E.dm],
              W |-> IF W.st \in Exc THEN W
                    ELSE [st |-> mst, ic |-> M.ic, e |-> M.e, v |-> mv, de |-> M.de, dm |-> M.dm],
              r |-> r, cc |-> cc, m |-> m]]

\* Does the choice of nf matter in this cycle?
StoreHitsFetch(p) ==
  LET pc == FetchPc(p)
  IN MemWrite(p.M.ic) /\ OkAddr(p.M.e) /\ IsSmall(pc)
     /\ p.M.e[1] < pc[1] + 10 /\ pc[1] < p.M.e[1] + 8

---------------------------------------------------------------------------
\* What the tools show of a cycle t = Cycle(p, ..)

\* status and instruction of each stage; bubbles and stalls decided in the cycle
Stages(p, t) == [st |-> <<"aok", p.D.st, p.E.st, p.M.st, p.W.st>>,
                 ic |-> <<t.i.f.ic, p.D.ic, p.E.ic, p.M.ic, p.W.ic>>,
                 bub |-> <<FALSE, t.i.dbub, t.i.ebub, t.i.mbub, FALSE>>,
                 stl |-> <<t.i.fstall, t.i.dstall, FALSE, FALSE, t.i.wstall>>]

WOf(b) == WOfInt(b)
StatText(s) == CASE s = "aok" -> "Aok" [] s = "bub" -> "Bub" [] s = "hlt" -> "Hlt" [] s = "adr" -> "Adr"
                 [] s = "ins" -> "Ins"
CcText(c) == [zf |-> c[1], sf |-> c[2], of |-> c[3]]

\* the named signals of the cycle; signals nobody uses in a cycle may have any value
\* and are left out
PipeSigs(p, t) ==
  LET i == t.i  f == i.f
  IN ("f_pc" :> t.pc) @@ ("f_icode" :> WOf(f.ic)) @@ ("f_stat" :> StatText(f.st))
     @@ ("instr_valid" :> (f.ic <= POPQ))
     @@ (IF f.st # "adr" THEN ("f_valP" :> f.p) @@ ("f_ifun" :> WOf(f.fn)) ELSE <<>>)
     @@ (IF f.ic \in {IRMOVQ, RMMOVQ, MRMOVQ, JX, CALL} THEN "f_valC" :> f.c ELSE <<>>)
     @@ (IF f.ic \in {CMOVX, IRMOVQ, RMMOVQ, MRMOVQ, OPQ, PUSHQ, POPQ}
         THEN ("f_rA" :> WOf(f.ra)) @@ ("f_rB" :> WOf(f.rb)) ELSE <<>>)
     @@ (IF f.st # "adr" THEN "f_pred_pc" :> (IF f.ic \in {JX, CALL} THEN f.c ELSE f.p) ELSE <<>>)
     @@ ("d_srcA" :> WOf(i.sa)) @@ ("d_srcB" :> WOf(i.sb))
     @@ ("d_dstE" :> WOf(DstE(p.D.ic, p.D.rb))) @@ ("d_dstM" :> WOf(DstM(p.D.ic, p.D.ra)))
     @@ (IF i.sa # RNONE THEN "d_rvalA" :> HwReg(t.r, i.sa) ELSE <<>>)
     @@ (IF i.sb # RNONE THEN "d_rvalB" :> HwReg(t.r, i.sb) ELSE <<>>)
     @@ ("d_valA" :> i.va) @@ ("d_valB" :> i.vb) @@ ("d_icode" :> WOf(p.D.ic)) @@ ("d_stat" :> StatText(p.D.st))
     @@ ("aluA" :> i.aa) @@ ("aluB" :> i.bb) @@ ("alufun" :> WOf(i.fun)) @@ ("set_cc" :> i.setcc)
     @@ ("e_valE" :> i.e) @@ ("cc" :> CcText(t.cc)) @@ ("e_cnd" :> i.cnd) @@ ("e_valA" :> p.E.a)
     @@ ("e_dstE" :> WOf(i.ede)) @@ ("e_dstM" :> WOf(p.E.dm)) @@ ("e_icode" :> WOf(p.E.ic))
     @@ ("e_stat" :> StatText(p.E.st))
     @@ ("mem_read" :> MemRead(p.M.ic)) @@ ("mem_write" :> MemWrite(p.M.ic))
     @@ (IF MemRead(p.M.ic) \/ MemWrite(p.M.ic) THEN "mem_addr" :> i.ad ELSE <<>>)
     @@ (IF p.W.st # "adr" THEN "m_stat" :> StatText(i.mst) ELSE <<>>)
     @@ ("mem_data" :> p.M.a) @@ ("m_icode" :> WOf(p.M.ic)) @@ ("m_valM" :> i.mv)
     @@ ("m_valE" :> p.M.e) @@ ("m_dstE" :> WOf(p.M.de)) @@ ("m_dstM" :> WOf(p.M.dm))
     @@ ("w_dstE" :> WOf(p.W.de)) @@ ("w_dstM" :> WOf(p.W.dm)) @@ ("w_valE" :> p.W.e) @@ ("w_valM" :> p.W.v)
     @@ ("prog_stat" :> (IF p.W.st = "bub" THEN "Aok" ELSE StatText(p.W.st))) @@ ("prog_term" :> t.term)
     @@ ("f_stall" :> i.fstall) @@ ("d_stall" :> i.dstall) @@ ("d_bubble" :> i.dbub) @@ ("e_bubble" :> i.ebub)
     @@ ("m_bubble" :> i.mbub) @@ ("w_stall" :> i.wstall) @@ ("f_bubble" :> FALSE) @@ ("e_stall" :> FALSE)
     @@ ("m_stall" :> FALSE) @@ ("w_bubble" :> FALSE)
=============================================================================
