-------------------------------- MODULE Hcl --------------------------------
(* The meaning of hardware descriptions: signals, units, pipeline registers. *)
(* A description A (JSON) has                                                *)
(*   units   << [n, kind, ins] >>   ins: function port -> driving signal     *)
(*   sigs    << [n, cases] >>       cases: << <<condition, value>>, ... >>   *)
(*   stages  << [n, fields, stall, bubble] >>                                *)
(*             fields << [n, d (default), s (driving signal or "")] >>       *)
(*   pc, term    names of signals                                            *)
(* Expressions are tuples headed by an operator, see Eval.                   *)
(* The state of a machine is [reg, unit]: pipeline registers (start of the   *)
(* cycle) and the internal states of the units.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

---------------------------------------------------------------------------
\* Dependencies: the signals and units an expression reads in this cycle

RECURSIVE Reads(_)
Reads(e) ==
  CASE e[1] \in {"sig", "fld"} -> {<<"s", e[2]>>}
    [] e[1] \in {"out", "outf"} -> {<<"u", e[2]>>}
    [] e[1] \in {"not", "nz"} -> Reads(e[2])
    [] e[1] \in {"eq", "ne", "and", "or"} -> Reads(e[2]) \cup Reads(e[3])
    [] e[1] = "in" -> Reads(e[2]) \cup UNION {Reads(e[3][i]) : i \in DOMAIN e[3]}
    [] OTHER -> {}                           \* literals, pipeline registers

SigReads(s) == UNION {Reads(s.cases[i][1]) \cup Reads(s.cases[i][2]) : i \in DOMAIN s.cases}
UnitReads(u) == {<<"s", u.ins[i][2]>> : i \in DOMAIN u.ins}

\* All nodes with what they read
Nodes(A) == {[id |-> <<"s", A.sigs[i].n>>, k |-> i, rd |-> SigReads(A.sigs[i])] : i \in DOMAIN A.sigs}
       \cup {[id |-> <<"u", A.units[i].n>>, k |-> i, rd |-> UnitReads(A.units[i])] : i \in DOMAIN A.units}

\* An order in which everything can be computed (the description is acyclic),
\* wave by wave: all that reads only what is known
RECURSIVE Waves(_, _, _)
Waves(ns, known, acc) ==
  LET r == TLCEval({n \in ns : n.rd \subseteq known})
  IN IF r = {} THEN acc
     ELSE Waves(TLCEval(ns \ r), TLCEval(known \cup {n.id : n \in r}), Append(acc, r))
Schedule(ns) == LET w == Waves(TLCEval(ns), {}, <<>>)
                    at(r) == [x \in {n.id : n \in r} |-> (CHOOSE n \in r : n.id = x).k]
                IN TLCEval([i \in DOMAIN w |-> TLCEval(at(w[i]))])
Scheduled(ord) == UNION {DOMAIN ord[i] : i \in DOMAIN ord}

---------------------------------------------------------------------------
\* Values

RECURSIVE Eval(_, _, _)
Eval(e, v, reg) ==
  CASE e[1] = "lit" -> e[2]
    [] e[1] = "sig" -> v[<<"s", e[2]>>]
    [] e[1] = "fld" -> v[<<"s", e[2]>>][e[3]]
    [] e[1] = "out" -> v[<<"u", e[2]>>][e[3]]
    [] e[1] = "outf" -> v[<<"u", e[2]>>][e[3]][e[4]]
    [] e[1] = "reg" -> reg[e[2]][e[3]]
    [] e[1] = "regf" -> reg[e[2]][e[3]][e[4]]
    [] e[1] = "not" -> ~Eval(e[2], v, reg)
    [] e[1] = "nz" -> Eval(e[2], v, reg) # 0
    [] e[1] = "eq" -> Eval(e[2], v, reg) = Eval(e[3], v, reg)
    [] e[1] = "ne" -> Eval(e[2], v, reg) # Eval(e[3], v, reg)
    [] e[1] = "and" -> Eval(e[2], v, reg) /\ Eval(e[3], v, reg)
    [] e[1] = "or" -> Eval(e[2], v, reg) \/ Eval(e[3], v, reg)
    [] e[1] = "in" -> \E i \in DOMAIN e[3] : Eval(e[2], v, reg) = Eval(e[3][i], v, reg)

\* The first case whose condition is true (descriptions here always have one)
RECURSIVE Select(_, _, _, _)
Select(cs, i, v, reg) ==
  IF Eval(cs[i][1], v, reg) THEN Eval(cs[i][2], v, reg) ELSE Select(cs, i + 1, v, reg)

\* A unit's outputs and next state
In(u, p, v) == v[<<"s", u.ins[CHOOSE i \in DOMAIN u.ins : u.ins[i][1] = p][2]>>]

UnitStep(u, st, v) ==
  CASE u.kind = "cnt" -> [out |-> [n |-> st], st |-> (st + 1) % 8]
    [] u.kind = "rng" -> [out |-> [x |-> st % 8, b |-> (st \div 3) % 2 = 1, c |-> (st \div 5) % 4],
                          st |-> (st * 13 + 7) % 251]
    [] u.kind = "add" -> [out |-> [s |-> (In(u, "a", v) + In(u, "b", v)) % 8], st |-> st]
    [] u.kind = "sel" -> LET a == In(u, "a", v)
                         IN [out |-> [o |-> IF In(u, "k", v) THEN a ELSE (a + 3) % 8, z |-> a = 0], st |-> st]
    [] u.kind = "reg" -> [out |-> [q |-> st], st |-> IF In(u, "en", v) THEN In(u, "d", v) ELSE st]
    [] u.kind = "flg" -> LET a == In(u, "a", v)
                         IN [out |-> [cc |-> [zf |-> a = 0, sf |-> a % 2 = 1, of |-> a >= 4]], st |-> st]
    [] u.kind = "inc" -> LET a == In(u, "a", v)
                         IN [out |-> [o |-> (a + 1) % 4, p |-> a \div 2], st |-> st]
    [] u.kind = "mix" -> LET f == In(u, "f", v)
                         IN [out |-> [o |-> IF In(u, "k", v) THEN (In(u, "a", v) + In(u, "c", v)) % 8 ELSE In(u, "d", v),
                                      b |-> f.sf \/ f.of], st |-> st]

UnitInit(u) == IF u.kind = "rng" THEN u.seed ELSE 0

\* Values of all nodes in this cycle, wave by wave
Value(A, x, k, m, v) == IF x[1] = "s" THEN Select(A.sigs[k].cases, 1, v, m.reg)
                        ELSE UnitStep(A.units[k], m.unit[x[2]], v).out
RECURSIVE Values(_, _, _, _, _)
Values(A, ord, i, m, v) ==
  IF i > Len(ord) THEN v
  ELSE Values(A, ord, i + 1, m, TLCEval(v @@ [x \in DOMAIN ord[i] |-> Value(A, x, ord[i][x], m, v)]))

NoValues == [x \in {} |-> 0]

---------------------------------------------------------------------------
\* The clock edge

Ctl(name, v) == name # "" /\ v[<<"s", name>>]

StageNames(A) == {A.stages[i].n : i \in DOMAIN A.stages}
StageOf(A, n) == A.stages[CHOOSE i \in DOMAIN A.stages : A.stages[i].n = n]
FieldNames(s) == {s.fields[i].n : i \in DOMAIN s.fields}
FieldOf(s, f) == s.fields[CHOOSE i \in DOMAIN s.fields : s.fields[i].n = f]

Defaults(s) == [f \in FieldNames(s) |-> FieldOf(s, f).d]

Latch(s, cur, v) ==
  IF Ctl(s.bubble, v) THEN Defaults(s)
  ELSE IF Ctl(s.stall, v) THEN cur
  ELSE [f \in FieldNames(s) |-> LET d == FieldOf(s, f) IN IF d.s = "" THEN d.d ELSE v[<<"s", d.s>>]]

MInit(A) == [reg |-> [n \in StageNames(A) |-> Defaults(StageOf(A, n))],
             unit |-> [n \in {A.units[i].n : i \in DOMAIN A.units} |->
                        UnitInit(A.units[CHOOSE i \in DOMAIN A.units : A.units[i].n = n])]]

Edge(A, m, v) ==
  [reg |-> [n \in StageNames(A) |-> Latch(StageOf(A, n), m.reg[n], v)],
   unit |-> [n \in DOMAIN m.unit |->
              UnitStep(A.units[CHOOSE i \in DOMAIN A.units : A.units[i].n = n], m.unit[n], v).st]]
=============================================================================
