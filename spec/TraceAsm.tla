------------------------------ MODULE TraceAsm ------------------------------
(* Validation of the assembler.  Each line of the trace file is one source:  *)
(*   src      the source lines                                               *)
(*   outcome  "ok", "err", or how the assembler failed                       *)
(*   mem      segments of non-zero bytes <<address, bytes>>                  *)
(*   lines    << [addr (word or << >>), label, back] >>  what the assembler  *)
(*            says about each line (back: first line with the address)       *)
(*   syms     << <<name, word>> >>                                           *)
(*   yo       lines of the listing                                           *)
(* Pass 1 and pass 2 take one line per transition (a long source: several);  *)
(* then the verdict.                                                         *)
EXTENDS Asm, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, ph, l, a, st, ad, m, why
vars == <<tid, ph, l, a, st, ad, m, why>>
Src == Runs[tid].src

Init == /\ tid \in 1..Len(Runs) /\ ph = "place" /\ l = 0 /\ a = PassInit
        /\ st = <<>>        \* statements of the lines so far
        /\ ad = <<>>        \* their addresses (-1: none)
        /\ m = NoMem /\ why = ""

PlaceLine ==
  /\ ph = "place" /\ l < Len(Src) /\ ~a.err
  /\ \E p \in {PlaceTill(Src, l, Till(Src, l), [a |-> a, st |-> st, ad |-> ad])} :
       l' = Till(Src, l) /\ a' = p.a /\ st' = p.st /\ ad' = p.ad
  /\ UNCHANGED <<tid, ph, m, why>>

Turn == /\ ph = "place" /\ (l = Len(Src) \/ a.err)
        /\ ph' = "emit" /\ l' = 0 /\ UNCHANGED <<tid, a, st, ad, m, why>>

EmitLine ==
  /\ ph = "emit" /\ ~a.err /\ l < Len(Src)
  /\ \E e \in {EmitTill([a |-> a, st |-> st, ad |-> ad], l, Till(Src, l), [bad |-> FALSE, m |-> m])} :
     l' = Till(Src, l) /\ m' = e.m /\ a' = [a EXCEPT !.err = e.bad]
  /\ UNCHANGED <<tid, ph, st, ad, why>>

---------------------------------------------------------------------------
NonZero == {<<x, m[x]>> : x \in {y \in DOMAIN m : m[y] # 0}}
Given(segs) == UNION {{<<segs[i][1] + j - 1, segs[i][2][j]>> : j \in DOMAIN segs[i][2]} : i \in DOMAIN segs}

MinLine(x) == CHOOSE i \in 1..Len(Src) : ad[i] = x /\ \A j \in 1..(i - 1) : ad[j] # x

ListingVerdict(yo) ==
  LET rs == ReadLines(yo)
      n == Len(Src)
      ld == Load(rs)
  IN CASE Len(yo) < n -> "listing: too few lines"
       [] \E i \in DOMAIN rs : ~rs[i].ok -> "listing: unreadable line"
       [] \E i \in 1..n : rs[i].src # Src[i] -> "listing: source text"
       [] \E i \in (n + 1)..Len(yo) : rs[i].src # "" \/ rs[i].at >= 0 -> "listing: extra lines"
       [] \E i \in 1..n : rs[i].at # ad[i] -> "listing: address"
       [] \E i \in 1..n : Len(rs[i].bs) # Size(st[i]) -> "listing: number of bytes"
       [] {<<x, ld[x]>> : x \in {y \in DOMAIN ld : ld[y] # 0}} # NonZero -> "listing: memory"
       [] OTHER -> "ok"

Verdict(o) ==
  CASE o.outcome \notin {"ok", "err"} -> "crash: " \o o.outcome
    [] a.err -> IF o.outcome = "ok" THEN "invalid source accepted" ELSE "ok"
    [] o.outcome = "err" -> "valid source rejected"
    [] a.dup -> "ok"                                   \* nothing claimed
    [] Len(o.lines) < Len(Src) -> "lines"
    [] {<<o.syms[i][1], o.syms[i][2]>> : i \in DOMAIN o.syms} # {<<x, a.syms[x]>> : x \in DOMAIN a.syms} -> "symbols"
    [] \E i \in DOMAIN Src : o.lines[i].addr # (IF ad[i] < 0 THEN <<>> ELSE WOfInt(ad[i])) -> "line address"
    [] \E i \in DOMAIN Src : o.lines[i].label # st[i].lab -> "line label"
    [] \E i \in DOMAIN Src : ad[i] >= 0 /\ o.lines[i].back # MinLine(ad[i]) -> "line of an address"
    [] Given(o.mem) # NonZero -> "memory"
    [] OTHER -> ListingVerdict(o.yo)

Judge == /\ ph = "emit" /\ why = "" /\ (a.err \/ l = Len(Src))
         /\ \E v \in {Verdict(Runs[tid])} : why' = v
         /\ UNCHANGED <<tid, ph, l, a, st, ad, m>>

Next == PlaceLine \/ Turn \/ EmitLine \/ Judge
Spec == Init /\ [][Next]_vars
Conforms == why \in {"", "ok"}
=============================================================================
