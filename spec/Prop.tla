-------------------------------- MODULE Prop --------------------------------
(* Circuit descriptions and their evaluation order.  A description is a      *)
(* sequence of declarations                                                  *)
(*   <<"unit", u>>  <<"in", u, f>>  <<"out", u, f>>  <<"inter", s>>          *)
(*   <<"edge", a, b>>       (b depends on a; ports are named "u.f")          *)
(*   <<"ghost", a>>         (something reads or sets a, which nothing declares)*)
(* Runnable nodes are units and (intermediate) signals.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [units |-> {}, inters |-> {}, edges |-> {}, nodes |-> {}, dup |-> FALSE, ghost |-> FALSE]

Port(u, f) == u \o "." \o f

Declare(g, o) ==
  CASE o[1] = "unit" -> IF o[2] \in g.units \cup g.inters THEN [g EXCEPT !.dup = TRUE]
                        ELSE [g EXCEPT !.units = @ \cup {o[2]}, !.nodes = @ \cup {o[2]}]
    [] o[1] = "inter" -> IF o[2] \in g.units \cup g.inters THEN [g EXCEPT !.dup = TRUE]
                         ELSE [g EXCEPT !.inters = @ \cup {o[2]}, !.nodes = @ \cup {o[2]}]
    [] o[1] = "in" -> [g EXCEPT !.edges = @ \cup {<<Port(o[2], o[3]), o[2]>>},
                                !.nodes = @ \cup {o[2], Port(o[2], o[3])}]
    [] o[1] = "out" -> [g EXCEPT !.edges = @ \cup {<<o[2], Port(o[2], o[3])>>},
                                 !.nodes = @ \cup {o[2], Port(o[2], o[3])}]
    [] o[1] = "ghost" -> [g EXCEPT !.ghost = TRUE]
    [] OTHER -> [g EXCEPT !.edges = @ \cup {<<o[2], o[3]>>}, !.nodes = @ \cup {o[2], o[3]}]

Preds(g, n) == {e[1] : e \in {x \in g.edges : x[2] = n}}

PredMap(g) == TLCEval([n \in g.nodes |-> Preds(g, n)])

\* A unit input is a node with an edge into a unit; it needs a source
Sourceless(g) == LET P == PredMap(g) IN \E e \in g.edges : e[2] \in g.units /\ P[e[1]] = {}

\* Nodes that lie on or behind no cycle: repeatedly take nodes whose predecessors are taken
RECURSIVE Grow(_, _)
Grow(P, t) == LET n == TLCEval({x \in DOMAIN P \ t : P[x] \subseteq t})
              IN IF n = {} THEN t ELSE Grow(P, t \cup n)
Cyclic(g) == Grow(PredMap(g), {}) # g.nodes

Refused(g) == g.dup \/ g.ghost \/ Sourceless(g) \/ Cyclic(g)

Max(S) == CHOOSE x \in S : \A y \in S : y <= x

\* For every node of an acyclic description: its level, the largest number of units
\* that have inputs on a path to it (itself included), and all nodes it depends on,
\* transitively
RECURSIVE Known(_, _, _)
Known(us, P, f) ==
  LET n == TLCEval({x \in DOMAIN P \ DOMAIN f : P[x] \subseteq DOMAIN f})
      lev(x) == IF P[x] = {} THEN 0
                ELSE Max({f[y].lv : y \in P[x]}) + (IF x \in us THEN 1 ELSE 0)
      anc(x) == P[x] \cup UNION {f[y].anc : y \in P[x]}
  IN IF n = {} THEN f
     ELSE Known(us, P, TLCEval([x \in DOMAIN f \cup n |-> IF x \in n THEN [lv |-> lev(x), anc |-> anc(x)] ELSE f[x]]))
NoLevels == [x \in {} |-> 0]
Facts(g) == Known(g.units, PredMap(g), NoLevels)

\* order: sequence of <<name, displayed level>>
OrderVerdict(g, order, cost) ==
  LET run == g.units \cup g.inters
      k == Facts(g)
      names == TLCEval([i \in DOMAIN order |-> order[i][1]])
  IN CASE {names[i] : i \in DOMAIN names} # run -> "not every unit and signal is evaluated"
       [] Len(names) # Cardinality(run) -> "evaluated more than once"
       [] \E i, j \in DOMAIN names : i < j /\ names[j] \in k[names[i]].anc ->
            "evaluated before something it depends on"
       [] \E i \in DOMAIN order : order[i][2] # k[names[i]].lv + 1 -> "level"
       [] cost >= 0 /\ cost # (IF g.nodes = {} THEN 0 ELSE Max({k[x].lv : x \in g.nodes})) + 1 -> "cycle cost"
       [] OTHER -> "ok"
=============================================================================
