------------------------------- MODULE MCAsm -------------------------------
(* Design check of the assembler: all sources of up to K lines from a set of *)
(* lines.  What is emitted decodes (by the instruction set of Y86.tla) to    *)
(* what was written, the layout has no gaps but those asked for, and reading *)
(* the listing back restores the memory.                                     *)
EXTENDS Asm, Json, IOUtils

Y == INSTANCE Y86
J == JsonDeserialize(IOEnv.ALPHA)
Texts == J.lines
K == J.k

VARIABLES src, ph, l, a, st, ad, m
vars == <<src, ph, l, a, st, ad, m>>

Init == src = <<>> /\ ph = "place" /\ l = 0 /\ a = PassInit /\ st = <<>> /\ ad = <<>> /\ m = NoMem

PlaceLine ==
  /\ ph = "place" /\ Len(src) < K /\ ~a.err
  /\ \E i \in DOMAIN Texts :
       LET t == Line(Texts[i])
           b == Place(a, t)
       IN /\ src' = Append(src, Texts[i]) /\ st' = Append(st, t) /\ a' = b
          /\ ad' = Append(ad, IF ~b.err /\ HasAddr(t) THEN At(a, t) ELSE -1)
  /\ UNCHANGED <<ph, l, m>>

Turn == /\ ph = "place" /\ ~a.err /\ ph' = "emit" /\ l' = 0 /\ UNCHANGED <<src, a, st, ad, m>>

EmitLine ==
  /\ ph = "emit" /\ ~a.err /\ l < Len(src)
  /\ IF Undefined(st[l + 1], a.syms)
     THEN a' = [a EXCEPT !.err = TRUE] /\ m' = m
     ELSE a' = a /\ m' = IF Size(st[l + 1]) = 0 THEN m ELSE Store(m, ad[l + 1], Bytes(st[l + 1], a.syms))
  /\ l' = l + 1 /\ UNCHANGED <<src, ph, st, ad>>

Next == PlaceLine \/ Turn \/ EmitLine
Spec == Init /\ [][Next]_vars

Done == ph = "emit" /\ ~a.err /\ l = Len(src)
Placed(i) == Size(st[i]) > 0
Extent(i) == ad[i]..(ad[i] + Size(st[i]) - 1)
Clear(i) == \A j \in DOMAIN st : j # i /\ Placed(j) => Extent(i) \cap Extent(j) = {}

\* every instruction decodes to itself
Decodes ==
  Done => \A i \in DOMAIN st : (st[i].kind = "inst" /\ Clear(i)) =>
    LET d == Y!Dec(<<>>, m, ad[i])
    IN /\ d.ic = st[i].head[1] \div 16 /\ d.fn = st[i].head[1] % 16
       /\ d.len = Size(st[i])
       /\ Y!OkFun(d.ic, d.fn)
       /\ st[i].w > 0 => d.v = Operand(st[i], a.syms)
       /\ Len(st[i].head) = 2 => 16 * d.ra + d.rb = st[i].head[2]

\* consecutive lines are adjacent unless a directive says otherwise
Adjacent ==
  ~a.err => \A i \in 1..(Len(st) - 1) :
    (ad[i] >= 0 /\ ad[i + 1] >= 0 /\ st[i + 1].kind \notin {"pos", "align"}) => ad[i + 1] = ad[i] + Size(st[i])
Aligned == ~a.err => \A i \in DOMAIN st : (st[i].kind = "align" /\ IsSmall(st[i].v.w)) => ad[i] % st[i].v.w[1] = 0
InMemory == ~a.err => a.at <= MEM /\ \A i \in DOMAIN st : Placed(i) => ad[i] + Size(st[i]) <= MEM
OnlyPlaced == Done => DOMAIN m = UNION {IF Placed(i) THEN Extent(i) ELSE {} : i \in DOMAIN st}

\* a writer of listings, and reading back what it wrote
HexOf(b) == HexDigit[(b \div 16) + 1] \o HexDigit[(b % 16) + 1]
AddrText(x) == "0x" \o (IF x = MEM THEN "10000" ELSE HexOf(x \div 256) \o HexOf(x % 256))
RECURSIVE HexRun(_, _)
HexRun(x, n) == IF n = 0 THEN "" ELSE HexOf(m[x]) \o HexRun(x + 1, n - 1)
WriteLine(i) == (IF ad[i] < 0 THEN "    " ELSE AddrText(ad[i]) \o ": " \o HexRun(ad[i], Size(st[i])) \o "  ") \o "| " \o src[i]
RoundTrip ==
  Done => \A i \in DOMAIN src :
    LET r == ReadLine(WriteLine(i))
    IN r.ok /\ r.src = src[i] /\ r.at = ad[i] /\ r.bs = [k \in 1..Size(st[i]) |-> m[ad[i] + k - 1]]
=============================================================================
