-------------------------------- MODULE Y86 --------------------------------
(* The Y86-64 instruction set as a state machine.                            *)
(*                                                                           *)
(* A machine state s is a record                                             *)
(*   pc  word        address of the next instruction                         *)
(*   r   [0..15 -> word]   register file (15 = "no register", always 0)      *)
(*   cc  <<zf, sf, of>>                                                       *)
(*   m   function from written addresses to bytes (overlay over the image)   *)
(*   st  "run", or why the machine stopped: "hlt", "adr", "ins"              *)
(*   n   instructions executed so far (the halt included)                    *)
(* The image is a sequence of segments <<base, bytes>>; other bytes are 0.   *)
EXTENDS Words, FiniteSets, TLC

MEMSIZE == 65536

HALT == 0   NOP == 1    CMOVX == 2   IRMOVQ == 3   RMMOVQ == 4  MRMOVQ == 5
OPQ == 6    JX == 7     CALL == 8    RET == 9      PUSHQ == 10  POPQ == 11
IOPQ == 12
RSP == 4    RNONE == 15

---------------------------------------------------------------------------
\* Memory

RECURSIVE SegByte(_, _, _)
SegByte(img, a, i) ==
  IF i > Len(img) THEN 0
  ELSE IF a >= img[i][1] /\ a < img[i][1] + Len(img[i][2]) THEN img[i][2][a - img[i][1] + 1]
  ELSE SegByte(img, a, i + 1)

ImgByte(img, a) == SegByte(img, a, 1)

\* Byte at address a; bytes beyond the end of memory read as 0
Byte(img, m, a) ==
  IF a >= MEMSIZE THEN 0 ELSE IF a \in DOMAIN m THEN m[a] ELSE ImgByte(img, a)

\* All 8 bytes at address w lie in memory
OkAddr(w) == IsSmall(w) /\ w[1] <= MEMSIZE - 8

Read8(img, m, a) == LET f(i) == Byte(img, m, a + i) IN WFrom8(f)
Write8(m, a, w) == [k \in a..(a + 7) |-> WByte(w, k - a)] @@ m

---------------------------------------------------------------------------
\* Arithmetic, flags and conditions

Alu(fn, a, b) == CASE fn = 0 -> WAdd(b, a)
                   [] fn = 1 -> WSub(b, a)
                   [] fn = 2 -> WAnd(b, a)
                   [] fn = 3 -> WXor(b, a)
                   [] OTHER -> W0

\* flags of  e = b fn a
Flags(fn, a, b, e) ==
  << WZero(e), WSign(e),
     CASE fn = 0 -> WSign(a) = WSign(b) /\ WSign(e) # WSign(a)
       [] fn = 1 -> WSign(a) # WSign(b) /\ WSign(e) # WSign(b)
       [] OTHER -> FALSE >>

Cond(fn, cc) ==
  LET zf == cc[1]  lt == cc[2] # cc[3]
  IN CASE fn = 0 -> TRUE
       [] fn = 1 -> lt \/ zf
       [] fn = 2 -> lt
       [] fn = 3 -> zf
       [] fn = 4 -> ~zf
       [] fn = 5 -> ~lt
       [] fn = 6 -> ~lt /\ ~zf
       [] OTHER -> FALSE

---------------------------------------------------------------------------
\* Instruction formats

InsLen(ic) == CASE ic \in {HALT, NOP, RET} -> 1
                [] ic \in {CMOVX, OPQ, PUSHQ, POPQ} -> 2
                [] ic \in {JX, CALL} -> 9
                [] ic \in {IRMOVQ, RMMOVQ, MRMOVQ, IOPQ} -> 10
                [] OTHER -> 1

\* Is the function code defined for the instruction?
OkFun(ic, fn) == CASE ic \in {OPQ, IOPQ} -> fn <= 3
                   [] ic \in {CMOVX, JX} -> fn <= 6
                   [] OTHER -> fn = 0

\* Do the register fields name registers where one is needed and RNONE elsewhere?
OkRegs(ic, ra, rb) == CASE ic \in {CMOVX, OPQ, RMMOVQ, MRMOVQ} -> ra # RNONE /\ rb # RNONE
                        [] ic \in {IRMOVQ, IOPQ} -> ra = RNONE /\ rb # RNONE
                        [] ic \in {PUSHQ, POPQ} -> ra # RNONE /\ rb = RNONE
                        [] OTHER -> TRUE

\* Instruction at small address a
Dec(img, m, a) ==
  LET b0 == Byte(img, m, a)
      ic == b0 \div 16
      len == InsLen(ic)
      b1 == IF len \in {2, 10} THEN Byte(img, m, a + 1) ELSE 255
      off == IF len = 10 THEN 2 ELSE 1
  IN [ic |-> ic, fn |-> b0 % 16, ra |-> b1 \div 16, rb |-> b1 % 16, len |-> len,
      v |-> IF len >= 9 THEN Read8(img, m, a + off) ELSE W0]

\* Illegal whatever the registers: the function code is undefined or a constant
\* instruction names a first register
Illegal(d) == \/ d.ic \notin {CMOVX, JX} /\ ~OkFun(d.ic, d.fn)
              \/ d.ic \in {IRMOVQ, IOPQ} /\ d.ra # RNONE
\* Every other malformed encoding has no meaning ("und"): nothing is claimed from
\* there on.

WellFormed(d) == d.ic <= IOPQ /\ OkFun(d.ic, d.fn) /\ OkRegs(d.ic, d.ra, d.rb)

---------------------------------------------------------------------------
\* One instruction

Init0 == [pc |-> W0, r |-> [i \in 0..15 |-> W0], cc |-> <<FALSE, FALSE, FALSE>>,
          m |-> [x \in {} |-> 0], st |-> "run", n |-> 0]

Stop(s, why) == [s EXCEPT !.st = why]

SetReg(r, i, w) == IF i = RNONE THEN r ELSE [r EXCEPT ![i] = w]

\* Semantics of the well-formed instruction d in state s; "adr" when it uses an
\* address outside memory (no other effect)
Do(s, d, img) ==
  LET va == s.r[d.ra]   vb == s.r[d.rb]   sp == s.r[RSP]
      vp == WInc(s.pc, d.len)
      nx == [s EXCEPT !.pc = vp]
  IN CASE d.ic = HALT -> Stop(s, "hlt")
       [] d.ic = NOP -> nx
       [] d.ic = CMOVX -> IF Cond(d.fn, s.cc) THEN [nx EXCEPT !.r[d.rb] = va] ELSE nx
       [] d.ic = IRMOVQ -> [nx EXCEPT !.r[d.rb] = d.v]
       [] d.ic = RMMOVQ -> LET ad == WAdd(vb, d.v)
                           IN IF OkAddr(ad) THEN [nx EXCEPT !.m = Write8(s.m, ad[1], va)]
                              ELSE Stop(s, "adr")
       [] d.ic = MRMOVQ -> LET ad == WAdd(vb, d.v)
                           IN IF OkAddr(ad) THEN [nx EXCEPT !.r[d.ra] = Read8(img, s.m, ad[1])]
                              ELSE Stop(s, "adr")
       [] d.ic = OPQ -> LET e == Alu(d.fn, va, vb)
                        IN [nx EXCEPT !.r[d.rb] = e, !.cc = Flags(d.fn, va, vb, e)]
       [] d.ic = IOPQ -> LET e == Alu(d.fn, d.v, vb)
                         IN [nx EXCEPT !.r[d.rb] = e, !.cc = Flags(d.fn, d.v, vb, e)]
       [] d.ic = JX -> IF Cond(d.fn, s.cc) THEN [s EXCEPT !.pc = d.v] ELSE nx
       [] d.ic = CALL -> LET ad == WAdd(sp, WNeg8)
                         IN IF OkAddr(ad)
                            THEN [s EXCEPT !.pc = d.v, !.r[RSP] = ad, !.m = Write8(s.m, ad[1], vp)]
                            ELSE Stop(s, "adr")
       [] d.ic = RET -> IF OkAddr(sp)
                        THEN [s EXCEPT !.pc = Read8(img, s.m, sp[1]), !.r[RSP] = WAdd(sp, W8)]
                        ELSE Stop(s, "adr")
       [] d.ic = PUSHQ -> LET ad == WAdd(sp, WNeg8)
                          IN IF OkAddr(ad)
                             THEN [nx EXCEPT !.r[RSP] = ad, !.m = Write8(s.m, ad[1], va)]
                             ELSE Stop(s, "adr")
       [] d.ic = POPQ -> IF OkAddr(sp)
                         THEN [nx EXCEPT !.r = [[s.r EXCEPT ![RSP] = WAdd(sp, W8)]
                                                   EXCEPT ![d.ra] = Read8(img, s.m, sp[1])]]
                         ELSE Stop(s, "adr")

\* Stands for what is fetched outside memory
NoIns == [ic |-> NOP, fn |-> 0, ra |-> RNONE, rb |-> RNONE, len |-> 1, v |-> W0]

\* Execute the instruction d found at s0.pc; it is counted even if it stops the machine
ExecD(s0, d, img, ext) ==
  LET s == [s0 EXCEPT !.n = @ + 1] IN
  IF ~IsSmall(s.pc) THEN Stop(s, "adr")
  ELSE IF d.ic > (IF ext THEN IOPQ ELSE POPQ) THEN Stop(s, "ins")
  ELSE IF s.pc[1] + d.len > MEMSIZE THEN Stop(s, "adr")
  ELSE IF Illegal(d) THEN Stop(s, "ins")
  ELSE IF ~WellFormed(d) THEN Stop(s, "und")
  ELSE Do(s, d, img)

\* Execute one instruction.  ext: is the extended instruction iopq part of the ISA?
Exec(s0, img, ext) ==
  LET d == IF IsSmall(s0.pc) THEN Dec(img, s0.m, s0.pc[1]) ELSE NoIns IN ExecD(s0, d, img, ext)
=============================================================================