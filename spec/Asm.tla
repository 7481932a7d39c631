-------------------------------- MODULE Asm --------------------------------
(* The Y86-64 assembly language: syntax, layout, encoding and the listing.   *)
(* A source is a sequence of lines (strings).  A line parses to a statement  *)
(*   ok    FALSE: not in the language                                        *)
(*   lab   label defined on the line, "" if none                             *)
(*   kind  "none", "pos", "align", "data", "inst"                            *)
(*   head  fixed bytes (opcode and register byte)                            *)
(*   v     operand: [t |-> "no"], [t |-> "num", w |-> word],                 *)
(*         [t |-> "lab", n |-> name], [t |-> "bad"] (literal out of range)   *)
(*   w     number of operand bytes emitted, little endian                    *)
(* The assembler is a two-pass machine: Place (pass 1, line by line) and     *)
(* Emit (pass 2, line by line).                                              *)
(* Scanners take a string and a position and give the position behind what   *)
(* they recognised, 0 if they do not; 0 is passed on.                        *)
EXTENDS Words, FiniteSets, TLC

X == INSTANCE SequencesExt

---------------------------------------------------------------------------
\* Characters

Ch(s, p) == IF p # 0 /\ p <= Len(s) THEN SubSeq(s, p, p) ELSE ""

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
HexVal == ("0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7
           @@ "8" :> 8 @@ "9" :> 9 @@ "a" :> 10 @@ "b" :> 11 @@ "c" :> 12 @@ "d" :> 13 @@ "e" :> 14 @@ "f" :> 15
           @@ "A" :> 10 @@ "B" :> 11 @@ "C" :> 12 @@ "D" :> 13 @@ "E" :> 14 @@ "F" :> 15)
Hex == DOMAIN HexVal
Alpha == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t",
          "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N",
          "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "_"}
Blank == {" ", "\t"}

\* (32 characters at a time where there are so many)
RECURSIVE Skip(_, _, _)
Skip(s, p, set) == IF p # 0 /\ Ch(s, p) \in set
                   THEN IF p % 32 = 0 /\ \A i \in 1..31 : Ch(s, p + i) \in set THEN Skip(s, p + 32, set) ELSE Skip(s, p + 1, set)
                   ELSE p
Ws(s, p) == Skip(s, p, Blank)

Tok(s, p, w) == IF p # 0 /\ p + Len(w) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(w) - 1) = w THEN p + Len(w) ELSE 0

\* one or more
Some(s, p, set) == IF p # 0 /\ Ch(s, p) \in set THEN Skip(s, p, set) ELSE 0

Comma(s, p) == IF p = 0 THEN 0 ELSE Ws(s, Tok(s, Ws(s, p), ","))

Label(s, p) == IF p # 0 /\ Ch(s, p) \in Alpha THEN Skip(s, p, Alpha \cup Digits) ELSE 0

Num(s, p) ==
  LET q == IF Ch(s, p) = "-" THEN p + 1 ELSE p
      h == Some(s, Tok(s, q, "0x"), Hex)
  IN IF p = 0 THEN 0 ELSE IF h # 0 THEN h ELSE Some(s, q, Digits)

Imm(s, p) == Num(s, Tok(s, p, "$"))

Text(s, p, e) == SubSeq(s, p, e - 1)

---------------------------------------------------------------------------
\* Literals

RegNames == <<"%rax", "%rcx", "%rdx", "%rbx", "%rsp", "%rbp", "%rsi", "%rdi",
              "%r8", "%r9", "%r10", "%r11", "%r12", "%r13", "%r14">>
RECURSIVE RegAt(_, _, _)
RegAt(s, p, i) == IF i > 15 THEN [e |-> 0, r |-> 15]
                  ELSE IF Tok(s, p, RegNames[i]) # 0 THEN [e |-> Tok(s, p, RegNames[i]), r |-> i - 1]
                  ELSE RegAt(s, p, i + 1)
Reg(s, p) == RegAt(s, p, 1)

\* x * b + d with an overflow flag in limb 5
MulAdd(x, b, d) ==
  LET s1 == x[1] * b + d
      s2 == x[2] * b + (s1 \div B16)
      s3 == x[3] * b + (s2 \div B16)
      s4 == x[4] * b + (s3 \div B16)
  IN <<s1 % B16, s2 % B16, s3 % B16, s4 % B16, IF x[5] # 0 \/ s4 \div B16 # 0 THEN 1 ELSE 0>>

RECURSIVE Mag(_, _, _, _)
Mag(s, p, b, x) == IF p > Len(s) \/ x[5] # 0 THEN x ELSE Mag(s, p + 1, b, MulAdd(x, b, HexVal[Ch(s, p)]))

W63 == <<0, 0, 0, 32768>>

\* The value of a literal text: decimal within the signed 64-bit range,
\* hexadecimal of up to 64 bits, sign applied modulo 2^64
Literal(t) ==
  LET neg == Ch(t, 1) = "-"
      p == IF neg THEN 2 ELSE 1
      hex == Tok(t, p, "0x") # 0
      x == Mag(t, Skip(t, IF hex THEN p + 2 ELSE p, {"0"}), IF hex THEN 16 ELSE 10, <<0, 0, 0, 0, 0>>)
      w == <<x[1], x[2], x[3], x[4]>>
      out == x[5] # 0 \/ (~hex /\ IF neg THEN WLess(W63, w) ELSE ~WLess(w, W63))
  IN IF out THEN [t |-> "bad"] ELSE [t |-> "num", w |-> IF neg THEN WNeg(w) ELSE w]

NoVal == [t |-> "no"]

---------------------------------------------------------------------------
\* Operands and statements

Fail == [e |-> 0]
Stm(e, kind, head, v, w) == IF e = 0 THEN Fail ELSE [e |-> e, kind |-> kind, head |-> head, v |-> v, w |-> w]
I(e, head, v, w) == Stm(e, "inst", head, v, w)

\* "num | label" with the scanner for numbers given
NumOrLab(s, p, numend, skip) ==
  IF numend # 0 THEN [e |-> numend, v |-> Literal(Text(s, p + skip, numend))]
  ELSE IF Label(s, p) # 0 THEN [e |-> Label(s, p), v |-> [t |-> "lab", n |-> Text(s, p, Label(s, p))]]
  ELSE [e |-> 0, v |-> NoVal]
ImmOrLab(s, p) == NumOrLab(s, p, Imm(s, p), 1)

\* D(rB)
Addr(s, p) ==
  LET n == Num(s, p)
      r == Reg(s, Tok(s, IF n # 0 THEN n ELSE p, "("))
  IN [e |-> Tok(s, r.e, ")"), r |-> r.r,
      v |-> IF n # 0 THEN Literal(Text(s, p, n)) ELSE [t |-> "num", w |-> W0]]

Suffixes == <<"le", "l", "ge", "g", "e", "ne">>
SufFun == <<1, 2, 5, 6, 3, 4>>
RECURSIVE SufAt(_, _, _)
SufAt(s, p, i) == IF p = 0 \/ i > 6 THEN [e |-> 0, f |-> 0]
                  ELSE IF Tok(s, p, Suffixes[i]) # 0 THEN [e |-> Tok(s, p, Suffixes[i]), f |-> SufFun[i]]
                  ELSE SufAt(s, p, i + 1)

\* first of the names w[i] at p: its end and index
RECURSIVE OneOf(_, _, _, _)
OneOf(s, p, w, i) == IF i > Len(w) THEN [e |-> 0, i |-> 1]
                     ELSE IF Tok(s, p, w[i]) # 0 THEN [e |-> Tok(s, p, w[i]), i |-> i]
                     ELSE OneOf(s, p, w, i + 1)

TwoRegs(s, p, b0) ==
  LET a == Reg(s, IF p = 0 THEN 0 ELSE Ws(s, p))
      b == Reg(s, Comma(s, a.e))
  IN I(b.e, <<b0, 16 * a.r + b.r>>, NoVal, 0)
OneReg(s, p, b0) == LET a == Reg(s, IF p = 0 THEN 0 ELSE Ws(s, p)) IN I(a.e, <<b0, 16 * a.r + 15>>, NoVal, 0)
ImmReg(s, p, b0) ==
  LET x == ImmOrLab(s, IF p = 0 THEN 0 ELSE Ws(s, p))
      b == Reg(s, Comma(s, x.e))
  IN I(b.e, <<b0, 240 + b.r>>, x.v, 8)
Dest(s, p, b0) ==
  LET q == IF p = 0 THEN 0 ELSE Ws(s, p)
      e == Label(s, q)
  IN IF e = 0 THEN Fail ELSE I(e, <<b0>>, [t |-> "lab", n |-> Text(s, q, e)], 8)

Ops == <<"addq", "subq", "andq", "xorq">>
IOps == <<"iaddq", "isubq", "iandq", "ixorq">>
Data == <<".byte", ".word", ".long", ".quad">>
Single == <<"ret", "halt", "nop">>

MrMov(s, p) == LET a == Addr(s, Ws(s, p))
                   r == Reg(s, Comma(s, a.e))
               IN I(r.e, <<80, 16 * r.r + a.r>>, a.v, 8)
RmMov(s, p) == LET r == Reg(s, Ws(s, p))
                   a == Addr(s, Comma(s, r.e))
               IN I(a.e, <<64, 16 * r.r + a.r>>, a.v, 8)

\* the statement at position p (e = 0 if there is none)
Statement(s, p) ==
  LET op == OneOf(s, p, Ops, 1)
      iop == OneOf(s, p, IOps, 1)
      data == OneOf(s, p, Data, 1)
      single == OneOf(s, p, Single, 1)
      j == Tok(s, p, "j")
      jcc == SufAt(s, j, 1)
      cm == Tok(s, p, "cmov")
      ccc == SufAt(s, cm, 1)
  IN CASE Tok(s, p, "mrmovq") # 0 -> MrMov(s, p + 6)
       [] Tok(s, p, "irmovq") # 0 -> ImmReg(s, p + 6, 48)
       [] Tok(s, p, "rmmovq") # 0 -> RmMov(s, p + 6)
       [] op.e # 0 -> TwoRegs(s, op.e, 96 + op.i - 1)
       [] iop.e # 0 -> ImmReg(s, iop.e, 192 + iop.i - 1)
       [] jcc.e # 0 -> Dest(s, jcc.e, 112 + jcc.f)
       [] Tok(s, j, "mp") # 0 -> Dest(s, Tok(s, j, "mp"), 112)
       [] Tok(s, p, "rrmovq") # 0 -> TwoRegs(s, p + 6, 32)
       [] ccc.e # 0 -> TwoRegs(s, ccc.e, 32 + ccc.f)
       [] Tok(s, p, "call") # 0 -> Dest(s, p + 4, 128)
       [] single.e # 0 -> I(single.e, <<<<144, 0, 16>>[single.i]>>, NoVal, 0)
       [] Tok(s, p, "pushq") # 0 -> OneReg(s, p + 5, 160)
       [] Tok(s, p, "popq") # 0 -> OneReg(s, p + 4, 176)
       [] Tok(s, p, ".pos") # 0 \/ Tok(s, p, ".align") # 0 ->
            LET pos == Tok(s, p, ".pos") # 0
                q == Ws(s, IF pos THEN p + 4 ELSE p + 6)
                e == Num(s, q)
            IN IF e = 0 THEN Fail ELSE Stm(e, IF pos THEN "pos" ELSE "align", <<>>, Literal(Text(s, q, e)), 0)
       [] data.e # 0 ->
            LET q == Ws(s, data.e)
                x == NumOrLab(s, q, Num(s, q), 0)
            IN Stm(x.e, "data", <<>>, x.v, <<1, 2, 4, 8>>[data.i])
       [] OTHER -> Fail

Bad == [ok |-> FALSE, lab |-> "", kind |-> "none", head |-> <<>>, v |-> NoVal, w |-> 0]

Line(s) ==
  LET p == Ws(s, 1)
      l == Label(s, p)
      lab == l # 0 /\ Ch(s, l) = ":"
      q == IF lab THEN Ws(s, l + 1) ELSE p
      t == Statement(s, q)
      e == Ws(s, IF t.e # 0 THEN t.e ELSE q)
      end == e > Len(s) \/ Ch(s, e) = "#"
  IN IF ~end THEN Bad
     ELSE [ok |-> TRUE, lab |-> IF lab THEN Text(s, p, l) ELSE ""]
          @@ (IF t.e # 0 THEN [kind |-> t.kind, head |-> t.head, v |-> t.v, w |-> t.w]
              ELSE [kind |-> "none", head |-> <<>>, v |-> NoVal, w |-> 0])

Size(st) == Len(st.head) + st.w

---------------------------------------------------------------------------
\* Pass 1: addresses.  a = [at (location counter), err, syms (name -> word)]

MEM == 65536
PassInit == [at |-> 0, err |-> FALSE, syms |-> [x \in {} |-> W0], dup |-> FALSE]

\* numbers up to MEM fit an integer; all others are out of memory
AddrOf(w) == IF w = <<0, 1, 0, 0>> THEN MEM ELSE IF IsSmall(w) THEN w[1] ELSE MEM + 1

PopCount(w) == Cardinality({<<i, j>> \in (1..4) \X (0..15) : (w[i] \div 2 ^ j) % 2 = 1})
AlignUp(at, w) ==
  IF IsSmall(w) THEN ((at + w[1] - 1) \div w[1]) * w[1]
  ELSE IF at = 0 THEN 0 ELSE IF w = <<0, 1, 0, 0>> THEN MEM ELSE MEM + 1

\* address the statement is placed at
At(a, st) == CASE st.kind = "pos" -> AddrOf(st.v.w)
               [] st.kind = "align" -> AlignUp(a.at, st.v.w)
               [] OTHER -> a.at

HasAddr(st) == st.kind # "none" \/ st.lab # ""

Place(a, st) ==
  LET bad == ~st.ok \/ st.v.t = "bad" \/ (st.kind = "align" /\ PopCount(st.v.w) # 1)
  IN IF a.err \/ bad THEN [a EXCEPT !.err = TRUE]
     ELSE LET at == At(a, st)
          IN [at |-> at + Size(st), err |-> at + Size(st) > MEM,
              dup |-> a.dup \/ st.lab \in DOMAIN a.syms,
              syms |-> IF st.lab = "" THEN a.syms ELSE (st.lab :> WOfInt(at)) @@ a.syms]

---------------------------------------------------------------------------
\* Pass 2: bytes

Undefined(st, syms) == st.v.t = "lab" /\ st.v.n \notin DOMAIN syms
Operand(st, syms) == IF st.v.t = "lab" THEN syms[st.v.n] ELSE IF st.v.t = "num" THEN st.v.w ELSE W0
Bytes(st, syms) == st.head \o [i \in 1..st.w |-> WByte(Operand(st, syms), i - 1)]

Store(m, at, bs) == [k \in at..(at + Len(bs) - 1) |-> bs[k - at + 1]] @@ m
NoMem == [x \in {} |-> 0]

---------------------------------------------------------------------------
\* Both passes, line by line; of a long source several lines at once

Stride(src) == 1 + Len(src) \div 32
Till(src, l) == LET n == l + Stride(src) IN IF n < Len(src) THEN n ELSE Len(src)
Span(i, j) == [k \in 1..(j - i + 1) |-> i + k - 1]

\* p = [a, st (statements), ad (their addresses, -1: none)]: lines l+1..n placed
PlaceLineOf(p, t) ==
  LET b == Place(p.a, t)
  IN IF p.a.err THEN p
     ELSE [a |-> b, st |-> Append(p.st, t), ad |-> Append(p.ad, IF ~b.err /\ HasAddr(t) THEN At(p.a, t) ELSE -1)]
PlaceTill(src, l, n, p) == X!FoldLeft(LAMBDA q, i : PlaceLineOf(q, Line(src[i])), p, Span(l + 1, n))

\* e = [bad (an undefined label), m]: lines l+1..n emitted
EmitLineOf(p, e, i) ==
  IF e.bad \/ Undefined(p.st[i], p.a.syms) THEN [e EXCEPT !.bad = TRUE]
  ELSE IF Size(p.st[i]) = 0 THEN e
  ELSE [e EXCEPT !.m = Store(@, p.ad[i], Bytes(p.st[i], p.a.syms))]
EmitTill(p, l, n, e) == X!FoldLeft(LAMBDA q, i : EmitLineOf(p, q, i), e, Span(l + 1, n))

---------------------------------------------------------------------------
\* The listing: one line per source line, "address: bytes | source"

HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>

RECURSIVE Find(_, _, _)
Find(s, p, c) == IF p > Len(s) THEN 0 ELSE IF Ch(s, p) = c THEN p
                 ELSE IF p % 32 = 0 /\ \A i \in 1..31 : Ch(s, p + i) # c THEN Find(s, p + 32, c) ELSE Find(s, p + 1, c)

RECURSIVE HexBytes(_, _, _)
HexBytes(s, p, acc) ==
  IF Ch(s, p) \in Hex /\ Ch(s, p + 1) \in Hex
  THEN HexBytes(s, p + 2, Append(acc, 16 * HexVal[Ch(s, p)] + HexVal[Ch(s, p + 1)]))
  ELSE [e |-> p, bs |-> acc]

\* What a reader of the listing sees on a line:
\* [ok, at (-1 if none), bs (bytes), src (the text behind the separator)]
ReadLine(s) ==
  LET bar == Find(s, 1, "|")
      p == Ws(s, 1)
      n == Num(s, p)
      c == Ws(s, n)
      b == HexBytes(s, Ws(s, c + 1), <<>>)
      src == IF Ch(s, bar + 1) = " " THEN SubSeq(s, bar + 2, Len(s)) ELSE SubSeq(s, bar + 1, Len(s))
      x == Literal(Text(s, p, n))
  IN CASE bar = 0 -> [ok |-> FALSE, at |-> -1, bs |-> <<>>, src |-> ""]
       [] p = bar -> [ok |-> TRUE, at |-> -1, bs |-> <<>>, src |-> src]
       [] n = 0 \/ Ch(s, c) # ":" \/ Ws(s, b.e) # bar \/ x.t = "bad" -> [ok |-> FALSE, at |-> -1, bs |-> <<>>, src |-> ""]
       [] OTHER -> [ok |-> TRUE, at |-> AddrOf(x.w), bs |-> b.bs, src |-> src]

\* a listing as its reader sees it, and the memory it describes
ReadLines(yo) == TLCEval([i \in DOMAIN yo |-> ReadLine(yo[i])])
Load(rs) == X!FoldLeft(LAMBDA q, o : IF o.at < 0 \/ o.bs = <<>> THEN q ELSE Store(q, o.at, o.bs), NoMem, rs)
=============================================================================
