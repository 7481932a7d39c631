------------------------------ MODULE TraceCli ------------------------------
(* The command-line tools, from the source text to what they print.  Each    *)
(* line of the trace file is one run of a tool:                              *)
(*   tool   "yas", "yis", "ysim"                                             *)
(*   ok     the exit status is zero                                          *)
(*   src    lines of the source (for yis: of the source its listing is made  *)
(*          from), or                                                        *)
(*   yo     (yis) lines of the listing it reads, if not made by yas          *)
(*          (yas) lines of the listing it wrote                              *)
(*   insts, total, regs, diff      printed by yis                            *)
(*   arch, max, cycles, diff       of ysim                                   *)
(*   left   (yas) after a failure, in the place of the listing: "nothing",   *)
(*          "as before" or "something"; "crash" if the tool crashed          *)
(*   verb   how many times more logging was asked for                       *)
(*   why    for a run that must fail whatever the text: the reason           *)
(* First the source is assembled (Asm), then the machine runs (Y86, Seq or   *)
(* Pipe), one instruction or cycle per transition, along with the output.    *)
EXTENDS Asm, Json, IOUtils

Q == INSTANCE Signals

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, ph, l, a, st, ad, m0, s, why
vars == <<tid, ph, l, a, st, ad, m0, s, why>>
R == Runs[tid]
Src == R.src

Init == /\ tid \in 1..Len(Runs) /\ ph = (IF Runs[tid].why # "" THEN "fail" ELSE "place")
        /\ l = 0 /\ a = PassInit /\ st = <<>> /\ ad = <<>> /\ m0 = NoMem /\ s = <<>> /\ why = ""

PlaceLine ==
  /\ ph = "place" /\ l < Len(Src) /\ ~a.err
  /\ \E p \in {PlaceTill(Src, l, Till(Src, l), [a |-> a, st |-> st, ad |-> ad])} :
       l' = Till(Src, l) /\ a' = p.a /\ st' = p.st /\ ad' = p.ad
  /\ UNCHANGED <<tid, ph, m0, s, why>>

Turn == /\ ph = "place" /\ (l = Len(Src) \/ a.err)
        /\ ph' = (IF a.err THEN "fail" ELSE "emit") /\ l' = 0 /\ UNCHANGED <<tid, a, st, ad, m0, s, why>>

\* a listing made by hand
ByHand == R.tool = "yis" /\ Src = <<>>

EmitLine ==
  /\ ph = "emit" /\ ~ByHand /\ l < Len(Src)
  /\ \E e \in {EmitTill([a |-> a, st |-> st, ad |-> ad], l, Till(Src, l), [bad |-> FALSE, m |-> m0])} :
     l' = Till(Src, l) /\ m0' = e.m /\ ph' = IF e.bad THEN "fail" ELSE ph
  /\ UNCHANGED <<tid, a, st, ad, s, why>>

ReadYo ==
  /\ ph = "emit" /\ ByHand /\ l < Len(R.yo)
  /\ LET x == ReadLine(R.yo[l + 1])
     IN IF ~x.ok \/ (x.bs # <<>> /\ (x.at < 0 \/ x.at + Len(x.bs) > MEM))
        THEN ph' = "fail" /\ m0' = m0
        ELSE ph' = ph /\ m0' = IF x.bs = <<>> THEN m0 ELSE Store(m0, x.at, x.bs)
  /\ l' = l + 1 /\ UNCHANGED <<tid, a, st, ad, s, why>>

Start ==
  /\ ph = "emit" /\ l = (IF ByHand THEN Len(R.yo) ELSE Len(Src))
  /\ l' = 0
  /\ IF a.dup THEN ph' = "done" /\ why' = "ok" /\ s' = s          \* nothing claimed
     ELSE IF R.tool = "yas" THEN ph' = "listing" /\ s' = s /\ why' = why
     ELSE /\ ph' = "run" /\ why' = why
          /\ s' = IF R.tool = "ysim" /\ R.arch = "pipe_std" THEN [Q!PInit EXCEPT !.m = m0]
                  ELSE [Q!Init0 EXCEPT !.m = m0]
  /\ UNCHANGED <<tid, a, st, ad, m0>>

Verdict(v) == ph' = "done" /\ why' = v /\ UNCHANGED <<tid, l, a, st, ad, m0, s>>

\* a refused source leaves no listing, and the one that was there as it was
Refuse == ph = "fail" /\ Verdict(IF ~R.ok THEN IF R.left = "crash" THEN "yas: crash"
                                             ELSE IF R.left = "something" THEN "yas: a listing of what it refused"
                                             ELSE "ok"
                               ELSE IF R.why # "" THEN R.tool \o ": success for " \o R.why
                               ELSE R.tool \o ": success for invalid input")

---------------------------------------------------------------------------
\* yas

ListingVerdict ==
  LET rs == ReadLines(R.yo)
  IN CASE ~R.ok -> "yas: error for a valid source"
       [] \E i \in DOMAIN rs : ~rs[i].ok -> "yas: unreadable listing"
       [] Len(rs) < Len(Src) \/ \E i \in DOMAIN Src : rs[i].src # Src[i] \/ rs[i].at # ad[i] -> "yas: listing lines"
       [] \E i \in (Len(Src) + 1)..Len(rs) : rs[i].src # "" \/ rs[i].at >= 0 -> "yas: extra lines"
       [] Load(rs) # m0 -> "yas: listing bytes"
       [] OTHER -> "ok"

Listing == ph = "listing" /\ \E v \in {ListingVerdict} : Verdict(v)

---------------------------------------------------------------------------
\* Memory differences, as aligned words

B(mm, x) == IF x \in DOMAIN mm THEN mm[x] ELSE 0
Old(x) == B(m0, x)
WordAt(mm, x) == [k \in 1..8 |-> B(mm, x + k - 1)]
Changed(mm) == {8 * (x \div 8) : x \in {y \in DOMAIN mm : mm[y] # Old(y)}}
DiffIs(d, mm) ==
  /\ \A i \in 1..(Len(d) - 1) : d[i][1] < d[i + 1][1]
  /\ {<<d[i][1], d[i][2], d[i][3]>> : i \in DOMAIN d} = {<<x, WordAt(m0, x), WordAt(mm, x)>> : x \in Changed(mm)}

\* registers as printed: ax bx cx dx si di sp bp
Shown(r) == <<r[0], r[3], r[1], r[2], r[6], r[7], r[4], r[5]>>

---------------------------------------------------------------------------
\* yis: one instruction per transition

RegName == <<"RAX", "RCX", "RDX", "RBX", "RSP", "RBP", "RSI", "RDI", "R8", "R9", "R10", "R11", "R12", "R13", "R14", "RNONE">>
InsName == <<"HALT", "NOP", "CMOVX", "IRMOVQ", "RMMOVQ", "MRMOVQ", "OPQ", "JX", "CALL", "RET", "PUSHQ", "POPQ", "IOPQ">>

InstIs(o, d, pc) ==
  /\ o.pc = pc /\ o.ic = d.ic /\ o.fn = d.fn /\ d.ic <= 12 /\ o.name = InsName[d.ic + 1]
  /\ o.ra # "" => o.ra = RegName[d.ra + 1] /\ o.rb = RegName[d.rb + 1]
  /\ o.v # <<>> => o.v = d.v
  /\ (d.len \in {2, 10}) = (o.ra # "")

NoImg == <<>>
IsaStep ==
  /\ ph = "run" /\ R.tool = "yis" /\ s.st = "run"
  /\ LET t == Q!Exec(s, NoImg, TRUE)
         printed == s.n < Len(R.insts)
         d == IF Q!IsSmall(s.pc) THEN Q!Dec(NoImg, s.m, s.pc[1]) ELSE <<>>
     IN IF t.st = "und" THEN Verdict("ok")
        ELSE IF ~printed /\ t.st \notin {"adr", "ins"} THEN Verdict("yis: instruction missing")
        ELSE IF printed /\ (d = <<>> \/ ~InstIs(R.insts[s.n + 1], d, s.pc)) THEN Verdict("yis: instruction printed")
        ELSE s' = t /\ UNCHANGED <<tid, ph, l, a, st, ad, m0, why>>

IsaEnd ==
  /\ ph = "run" /\ R.tool = "yis" /\ s.st # "run"
  /\ Verdict(CASE Len(R.insts) > s.n -> "yis: instruction printed after the end"
               [] s.st # "hlt" -> IF R.ok THEN "yis: success for a fault" ELSE "ok"
               [] ~R.ok -> "yis: failure for a legal program"
               [] R.total # s.n -> "yis: number of instructions"
               [] R.regs # Shown(s.r) -> "yis: registers"
               [] ~DiffIs(R.diff, s.m) -> "yis: memory changes"
               [] OTHER -> "ok")

---------------------------------------------------------------------------
\* ysim: one cycle per transition

IsPipe == R.arch = "pipe_std"
Over == l = Len(R.cycles)
Names(q) == [i \in DOMAIN q |-> IF q[i] <= 12 THEN InsName[q[i] + 1] ELSE "no name"]
Ctl(v) == [i \in 1..5 |-> IF v.bub[i] THEN "Bubble" ELSE IF v.stl[i] THEN "Stall" ELSE "Normal"]

StageIs(o, v) ==
  /\ o.stat # <<>> => o.stat = v.st
  /\ o.icode # <<>> => o.icode = Names(v.ic)
  /\ o.ctl # <<>> => o.ctl = Ctl(v)

\* the signals logged on request (verb > 0), those of the model's cycle
SigsAre(o, sg) ==
  R.verb > 0 => /\ Q!AllMust(R.arch) \subseteq {o.sig[i].name : i \in DOMAIN o.sig}
                /\ \A i \in DOMAIN o.sig : o.sig[i].name \in DOMAIN sg => Q!ValueIs(o.sig[i], sg[o.sig[i].name])

CycleVerdict(o, pc, r, cc) ==
  CASE o.c # l + 1 -> "ysim: cycle number"
    [] o.pc # pc -> "ysim: program counter"
    [] o.regs # Shown(r) -> "ysim: registers"
    [] o.cc # <<cc[2], cc[3], cc[1]>> -> "ysim: flags"
    [] o.cost # R.cycles[1].cost \/ o.cost <= 0 -> "ysim: cost"
    [] OTHER -> "ok"

\* after the last cycle: the state, whether it terminated
Finish(t, term) ==
  CASE ~term /\ l + 1 <= R.max -> "ysim: stopped early"
    [] (term /\ l + 1 <= R.max) # R.ok -> IF R.ok THEN "ysim: success beyond the limit" ELSE "ysim: failure within the limit"
    [] l + 1 > R.max -> "ok"
    [] ~DiffIs(R.diff, t.m) -> "ysim: memory changes"
    [] OTHER -> "ok"

HwStep ==
  /\ ph = "run" /\ R.tool = "ysim"
  /\ IF Over
     THEN Verdict(IF R.max = 0 /\ ~R.ok THEN "ok" ELSE "ysim: no cycles")
     ELSE
     LET o == R.cycles[l + 1]
         last == l + 1 = Len(R.cycles)
         Go(t, nx, pc, term, stg, sg) ==
           LET v == CycleVerdict(o, pc, t.r, t.cc)
           IN IF v # "ok" THEN Verdict(v)
              ELSE IF ~stg THEN Verdict("ysim: stages")
              ELSE IF ~SigsAre(o, sg) THEN Verdict("ysim: signals")
              ELSE IF last THEN Verdict(Finish(t, term))
              ELSE IF term THEN Verdict("ysim: went on after termination")
              ELSE s' = nx /\ l' = l + 1 /\ UNCHANGED <<tid, ph, a, st, ad, m0, why>>
     IN IF IsPipe
        THEN LET t == Q!Cycle(s, NoImg, FALSE)
             IN IF Q!StoreHitsFetch(s) THEN Verdict("ok")          \* not determined
                ELSE Go(t, t.nx, t.pc, t.term, StageIs(o, Q!Stages(s, t)), Q!PipeSigs(s, t))
        ELSE LET t == Q!SeqCycle(s, NoImg) IN Go(t, t, s.pc, t.st # "run", TRUE, Q!SeqSigs(s, t, NoImg))

\* every run ends with a verdict (anything else is a deadlock)
Rest == why # "" /\ UNCHANGED vars
Next == PlaceLine \/ Turn \/ EmitLine \/ ReadYo \/ Start \/ Refuse \/ Listing \/ IsaStep \/ IsaEnd \/ HwStep \/ Rest
Spec == Init /\ [][Next]_vars
Conforms == why \in {"", "ok"}
=============================================================================
