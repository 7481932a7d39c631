------------------------------- MODULE MCDap -------------------------------
(* Every sequence of up to DEPTH requests (valid or not) of a client of the  *)
(* session machine of Dap, over a few small programs.  Checked:              *)
(*   Same      the machine is where an undebugged run is after n cycles      *)
(*   StopRight an execution stops at the first cycle at a breakpoint, at     *)
(*             termination, after one step or at the limit, nowhere else     *)
(*   Refused   a refused request leaves the session as it was                *)
(*   Ready     execution ends: the server gets back to serving               *)
EXTENDS Dap

CONSTANTS ARCH, MAX, DEPTH

Sources == << << "  irmovq $2, %rcx", "  irmovq $1, %rdx", "top:", "l: subq %rdx, %rcx", "  jne l", "  halt" >>,
              << "  irmovq $0x40, %rsp", "  call f", "  halt", "f: pushq %rsp", "  popq %rax", "  ret" >>,
              << "s: jmp s" >>,
              << "  jmp nowhere" >>,
              << "  mrmovq -8(%rax), %rbx", "  nop" >> >>

RECURSIVE Layout(_, _, _, _)
Layout(src, i, a, at) ==
  IF i > Len(src) \/ a.err THEN [a |-> a, at |-> at]
  ELSE LET t == Line(src[i])  b == Place(a, t)
       IN Layout(src, i + 1, b, Append(at, IF ~b.err /\ HasAddr(t) THEN At(a, t) ELSE -1))
RECURSIVE Image(_, _, _, _, _)
Image(src, i, syms, at, m) ==
  IF i > Len(src) THEN m
  ELSE LET t == Line(src[i])
       IN Image(src, i + 1, syms, at, IF Size(t) = 0 THEN m ELSE Store(m, at[i], Bytes(t, syms)))
Assembled(src) ==
  LET x == Layout(src, 1, PassInit, <<>>)
      ok == ~x.a.err /\ \A i \in DOMAIN src : ~Undefined(Line(src[i]), x.a.syms)
  IN IF ok THEN [ok |-> TRUE, at |-> x.at, m |-> Image(src, 1, x.a.syms, x.at, NoMem)]
     ELSE [ok |-> FALSE, at |-> <<>>, m |-> NoMem]
Progs == [i \in DOMAIN Sources |-> Assembled(Sources[i])]
Path(i) == <<"p1", "p2", "p3", "p4", "p5">>[i]
NS == IF IsPipe(ARCH) THEN 6 ELSE 5

\* the undebugged runs
RECURSIVE Free(_, _)
Free(x, k) == IF k = 0 \/ x.term THEN <<x>> ELSE <<x>> \o Free(Tick(ARCH, x), k - 1)
FreeRun == [i \in DOMAIN Sources |-> IF Progs[i].ok THEN Free(Machine0(ARCH, Progs[i].m), MAX * (DEPTH + 1)) ELSE <<>>]

Req(cmd) == [cmd |-> cmd, thread |-> 1, frame |-> 1, ref |-> 1, start |-> 0, lines |-> <<>>, haslines |-> TRUE, filters |-> FALSE, odd |-> FALSE,
             path |-> "", prog |-> 0]
Bp(p, ls) == [Req("setBreakpoints") EXCEPT !.path = Path(p), !.lines = ls]
Reqs == {[Req("launch") EXCEPT !.path = Path(i), !.prog = i] : i \in DOMAIN Sources}
        \cup {Req("launch"), Req("configurationDone"), Req("next"), Req("continue"), Req("variables"), Req("pause")}
        \cup {[Req(c) EXCEPT !.thread = 2] : c \in {"next", "continue"}}
        \cup {[Req("variables") EXCEPT !.ref = 9]}
        \cup {Bp(1, <<>>), Bp(1, <<3>>), Bp(1, <<4, 6>>), Bp(1, <<9>>), Bp(2, <<4>>), Bp(2, <<3, 6>>), Bp(3, <<1>>), Bp(5, <<1, 2>>)}

VARIABLES d, ph, nreq, kind, seg, old
vars == <<d, ph, nreq, kind, seg, old>>
\* seg: pc of the cycles since the request; old: whether the machine had terminated before it

Init == d = Idle /\ ph = "serve" /\ nreq = 0 /\ kind = "" /\ seg = <<>> /\ old = FALSE

Handle ==
  /\ ph = "serve" /\ nreq < DEPTH /\ nreq' = nreq + 1
  /\ \E q \in Reqs : \E ok \in May(q, d, Progs, NS) :
       IF ~ok THEN d' = d /\ ph' = ph /\ kind' = "refused" /\ UNCHANGED <<seg, old>>
       ELSE /\ d' = Granted(q, d, Progs, ARCH, [i \in DOMAIN q.lines |-> LineAddr(Progs[d.prog], q.lines[i])])
            /\ IF Follows(q) \in {"step", "run"}
               THEN ph' = Follows(q) /\ kind' = Follows(q) /\ seg' = <<>> /\ old' = d.x.term
               ELSE ph' = "serve" /\ kind' = "" /\ UNCHANGED <<seg, old>>

Exec ==
  /\ ph \in {"step", "run"} /\ UNCHANGED nreq
  /\ IF d.x.term THEN ph' = "serve" /\ kind' = "pause" /\ UNCHANGED <<d, seg, old>>
     ELSE LET e == Advance(d, ARCH)
              z == StopAfter(e, ph, MAX)
          IN /\ d' = e /\ seg' = Append(seg, e.x.pc) /\ old' = old
             /\ IF z = "" THEN ph' = ph /\ kind' = ph
                ELSE ph' = "serve" /\ kind' = "at " \o z \o " of " \o ph

Next == Handle \/ Exec
Spec == Init /\ [][Next]_vars /\ WF_vars(Exec)

Hits(pc) == \E b \in d.bps : WOfInt(b.a) = pc
Same == d.prog # 0 => d.n + 1 <= Len(FreeRun[d.prog]) /\ d.x = FreeRun[d.prog][d.n + 1]
StopRight ==
  /\ \A i \in 1..(Len(seg) - 1) : kind \in {"run", "pause", "at breakpoint of run", "at step of run"} => ~Hits(seg[i])
  /\ kind = "pause" => d.x.term /\ (seg # <<>> => ~old)
  /\ kind \in {"at breakpoint of run", "at breakpoint of step"} => Hits(seg[Len(seg)])
  /\ kind \in {"at step of step", "at breakpoint of step"} => Len(seg) = 1
  /\ kind = "at step of step" => ~Hits(seg[1])
  /\ kind = "at step of run" => d.n >= MAX /\ ~Hits(seg[Len(seg)])
  /\ kind = "run" => ~(seg # <<>> /\ d.n >= MAX)
Refused == [][kind' = "refused" /\ nreq' # nreq => d' = d]_vars
Ready == []<>(ph = "serve")
=============================================================================
