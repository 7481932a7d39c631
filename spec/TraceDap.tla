------------------------------ MODULE TraceDap ------------------------------
(* Debug sessions with the real server.  Each line of the trace file is one  *)
(* session:                                                                  *)
(*   arch, max, ns                                                           *)
(*   files   sources of the programs (sequences of lines)                    *)
(*   reqs    the requests the client sent, in order (behind initialize)      *)
(*   outs    the messages it received, in order (behind initialized):        *)
(*             t = "rsp": seq (of the request), ok, and what it shows:       *)
(*                 bps <<[ver, id, line, path]>>, frames <<[line, path]>>,   *)
(*                 scopes <<[ref, path]>>, vars <<[name, k, w, b, s, c]>>    *)
(*             t = "evt": ev, reason, pc, n, ids                             *)
(*             dg: digest of all of it                                       *)
(*   cut     the client closed the connection without reading to the end     *)
(*   tw      what twin is: "none"; "skip": digests of the same session       *)
(*           without the refused requests; "all": of the same session alone  *)
(*   aspect  "protocol": responses, their order, success, and the twin       *)
(*           "stops": where execution stops, breakpoints                     *)
(*           "state": what is shown                                          *)
(*   why     a failure of the recording itself                               *)
(* The programs are assembled first, one line (of a long source: several)    *)
(* per transition; then one transition is one message or one clock cycle.    *)
EXTENDS Dap, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, ph, f, l, a, st, ad, m, progs, k, j, w, d, why
\* f, l: file and line being assembled; a, st, ad, m: assembler state
\* k, j, w: requests handled, messages and twin messages consumed
asm == <<f, l, a, st, ad, m, progs>>
vars == <<tid, ph, f, l, a, st, ad, m, progs, k, j, w, d, why>>
R == Runs[tid]

Init == /\ tid \in 1..Len(Runs) /\ ph = "place" /\ f = 1 /\ l = 0 /\ a = PassInit /\ st = <<>> /\ ad = <<>> /\ m = NoMem
        /\ progs = <<>> /\ k = 0 /\ j = 0 /\ w = 0 /\ d = Idle /\ why = ""

Keep == UNCHANGED <<tid, k, j, w, d, why>>
Src == R.files[f]

Place1 ==
  /\ ph = "place" /\ f <= Len(R.files) /\ l < Len(Src) /\ ~a.err
  /\ \E p \in {PlaceTill(Src, l, Till(Src, l), [a |-> a, st |-> st, ad |-> ad])} :
       l' = Till(Src, l) /\ a' = p.a /\ st' = p.st /\ ad' = p.ad
  /\ UNCHANGED <<ph, f, m, progs>> /\ Keep

NextFile(p) == /\ progs' = Append(progs, p) /\ f' = f + 1 /\ l' = 0 /\ a' = PassInit /\ st' = <<>> /\ ad' = <<>> /\ m' = NoMem
               /\ ph' = "place" /\ Keep
BadProg == [ok |-> FALSE, at |-> <<>>, m |-> NoMem]

Turn ==
  /\ ph = "place" /\ f <= Len(R.files) /\ (l = Len(Src) \/ a.err)
  /\ IF a.err THEN NextFile(BadProg)
     ELSE ph' = "emit" /\ l' = 0 /\ UNCHANGED <<f, a, st, ad, m, progs>> /\ Keep

Emit1 ==
  /\ ph = "emit"
  /\ IF l = Len(Src) THEN NextFile([ok |-> TRUE, at |-> ad, m |-> m])
     ELSE \E e \in {EmitTill([a |-> a, st |-> st, ad |-> ad], l, Till(Src, l), [bad |-> FALSE, m |-> m])} :
          IF e.bad THEN NextFile(BadProg)
             ELSE l' = Till(Src, l) /\ m' = e.m /\ UNCHANGED <<ph, f, a, st, ad, progs>> /\ Keep

Begin == /\ ph = "place" /\ f > Len(R.files)
         /\ ph' = "serve" /\ UNCHANGED asm /\ Keep

---------------------------------------------------------------------------
Verdict(v) == ph' = "done" /\ why' = v /\ UNCHANGED asm /\ UNCHANGED <<tid, k, j, w, d>>

Out == R.outs[j + 1]
Left == j < Len(R.outs)

\* the next message: consumed with the state e, unless the twin differs
TwinStep(fails) == IF R.tw = "none" \/ (R.tw = "skip" /\ fails) THEN w ELSE w + 1
TwinOk(fails) == TwinStep(fails) = w
                 \/ (w + 1 <= Len(R.twin) /\ R.twin[w + 1] = (IF fails THEN "refused" ELSE Out.dg))
Consume(e, p, kk, fails) ==
  IF ~TwinOk(fails)
  THEN Verdict(IF R.tw = "skip" THEN "a refused request changed the session" ELSE "another session changed this one")
  ELSE /\ j' = j + 1 /\ w' = TwinStep(fails) /\ d' = e /\ ph' = p /\ k' = kk
       /\ UNCHANGED asm /\ UNCHANGED <<tid, why>>

Stops == R.aspect = "stops"
State == R.aspect = "state"
Runs2 == Stops \/ State

---------------------------------------------------------------------------
\* bodies

BpsOk(q) ==
  /\ Len(Out.bps) = Len(q.lines)
  /\ \A i \in DOMAIN q.lines :
       LET o == Out.bps[i]  x == LineAddr(progs[d.prog], q.lines[i])
       IN o.ver = (x >= 0) /\ (x >= 0 => o.line = q.lines[i] /\ o.path = d.path)

RegName == <<"RAX", "RCX", "RDX", "RBX", "RSP", "RBP", "RSI", "RDI", "R8", "R9", "R10", "R11", "R12", "R13", "R14">>

VarsOk(q) ==
  IF q.ref = 1
  THEN \A i \in 1..15 : i \in DOMAIN Out.vars /\ Out.vars[i].name = RegName[i]
                        /\ Out.vars[i].k = "w" /\ Out.vars[i].w = d.x.r[i - 1]
  ELSE LET sg == Sigs(d, R.arch)
       IN /\ Q!Must(R.arch, q.ref - 1) \subseteq {Out.vars[i].name : i \in DOMAIN Out.vars}
          /\ \A i \in DOMAIN Out.vars : Out.vars[i].name \in DOMAIN sg => Q!ValueIs(Out.vars[i], sg[Out.vars[i].name])

FramesOk(q) ==
  IF q.start > 0 THEN Out.frames = <<>>
  ELSE Len(Out.frames) = 1 /\ Out.frames[1].line = ShownLine(d, progs[d.prog]) /\ Out.frames[1].path = d.path

ScopesOk == /\ [i \in DOMAIN Out.scopes |-> Out.scopes[i].ref] = [i \in 1..(R.ns + 1) |-> i]
            /\ \A i \in DOMAIN Out.scopes : Out.scopes[i].path = d.path

Body(q) ==
  CASE ~Out.ok -> "ok"
    [] Stops /\ q.cmd = "setBreakpoints" -> IF BpsOk(q) THEN "ok" ELSE "breakpoints reported"
    [] State /\ q.cmd = "variables" -> IF VarsOk(q) THEN "ok" ELSE IF q.ref = 1 THEN "registers shown" ELSE "signals shown"
    [] State /\ q.cmd = "stackTrace" -> IF FramesOk(q) THEN "ok" ELSE "source line shown"
    [] State /\ q.cmd = "scopes" -> IF ScopesOk THEN "ok" ELSE "scopes shown"
    [] OTHER -> "ok"

---------------------------------------------------------------------------
Serve ==
  /\ ph = "serve" /\ k < Len(R.reqs)
  /\ LET q == R.reqs[k + 1]
     IN IF R.why # "" THEN Verdict(R.why)
        ELSE IF ~Left THEN Verdict(IF R.cut THEN "ok" ELSE "request not answered: " \o q.cmd)
        ELSE IF Out.t # "rsp" THEN Verdict("message nobody asked for")
        ELSE IF Out.seq # q.seq THEN Verdict("response to another request")
        ELSE IF Out.ok /\ Out.cmd # q.cmd THEN Verdict("response to another command")
        ELSE IF Out.ok \notin May(q, d, progs, R.ns)
             THEN Verdict(IF Out.ok THEN "granted: " \o q.cmd ELSE "refused: " \o q.cmd)
        ELSE IF Body(q) # "ok" THEN Verdict(Body(q))
        ELSE IF ~Out.ok THEN Consume(d, "serve", k + 1, TRUE)
        ELSE LET e == Granted(q, d, progs, R.arch, [i \in DOMAIN Out.bps |-> Out.bps[i].id])
                 go == Follows(q)
             IN Consume(e, IF go = "none" THEN "serve" ELSE go, k + 1, FALSE)

End == /\ ph = "serve" /\ k = Len(R.reqs)
       /\ Verdict(CASE R.why # "" -> R.why
                    [] Left -> "message nobody asked for"
                    [] R.tw # "none" /\ ~R.cut /\ w # Len(R.twin) -> "messages missing"
                    [] OTHER -> "ok")

\* a stop event is due
Stopped(reason, pc, n, ids) ==
  IF ~Left THEN Verdict(IF R.cut THEN "ok" ELSE "no stop reported")
  ELSE IF Out.t # "evt" \/ Out.ev # "stopped" THEN Verdict("no stop reported")
  ELSE IF ~Stops THEN Consume(d, "serve", k, FALSE)
  ELSE CASE Out.reason # reason -> Verdict("stop: " \o Out.reason \o " instead of " \o reason)
         [] reason # "entry" /\ Out.pc # pc -> Verdict("stop: program counter reported")
         [] reason # "entry" /\ Out.n # n -> Verdict("stop: cycle count reported")
         [] {Out.ids[i] : i \in DOMAIN Out.ids} \ ids # {} \/ (ids # {} /\ Out.ids = <<>>) -> Verdict("stop: breakpoint reported")
         [] OTHER -> Consume(d, "serve", k, FALSE)

Entry == ph = "entry" /\ Stopped("entry", W0, 0, {})

\* the machine is not followed
Trust == ph \in {"step", "run"} /\ ~Runs2 /\ Stopped("", W0, 0, {})

\* where execution stops is what the server says (State) or is decided (Stops)
Cycle1 ==
  /\ ph \in {"step", "run"} /\ Runs2
  /\ IF ~Left \/ Out.t # "evt" THEN Stopped("", W0, 0, {})
     ELSE IF State /\ Out.n = d.n
     THEN IF Out.pc # d.x.pc THEN Verdict("program counter at a stop")
          ELSE Stopped("", W0, 0, {})
     ELSE IF d.x.term
     THEN IF State THEN Verdict("went on after termination")
          ELSE Stopped("pause", d.x.pc, d.n, {})
     ELSE IF Undetermined(R.arch, d.x) THEN Verdict("ok")
     ELSE IF State /\ Out.n < d.n THEN Verdict("cycle count at a stop")
     ELSE /\ d' = Advance(d, R.arch) /\ ph' = (IF ph = "step" THEN "stepped" ELSE "ran")
          /\ UNCHANGED asm /\ UNCHANGED <<tid, k, j, w, why>>

After ==
  /\ ph \in {"stepped", "ran"}
  /\ IF State
     THEN IF Out.n = d.n
          THEN IF Out.pc = d.x.pc THEN Stopped("", W0, 0, {}) ELSE Verdict("program counter at a stop")
          ELSE ph' = "run" /\ UNCHANGED asm /\ UNCHANGED <<tid, k, j, w, d, why>>
     ELSE LET z == StopAfter(d, IF ph = "stepped" THEN "step" ELSE "run", R.max)
          IN IF z = "" THEN ph' = "run" /\ UNCHANGED asm /\ UNCHANGED <<tid, k, j, w, d, why>>
             ELSE Stopped(z, d.x.pc, d.n, IF z = "breakpoint" THEN {b.id : b \in Hit(d)} ELSE {})

Rest == why # "" /\ UNCHANGED vars
Next == Place1 \/ Turn \/ Emit1 \/ Begin \/ Serve \/ End \/ Entry \/ Trust \/ Cycle1 \/ After \/ Rest
Spec == Init /\ [][Next]_vars
Conforms == why \in {"", "ok"}
=============================================================================
