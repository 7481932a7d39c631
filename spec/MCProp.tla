------------------------------- MODULE MCProp -------------------------------
(* The algorithm: Kahn's queue, then a stable sort by level, for every       *)
(* dependency graph on N nodes (each node a unit or a signal, units fed by   *)
(* ports).  It refuses exactly the cyclic graphs and its order is right,     *)
(* whatever order the queue is served in.                                    *)
EXTENDS Prop, TLC

CONSTANT N
Names == <<"a", "b", "c", "d", "e">>
Nodes == {Names[i] : i \in 1..N}

VARIABLES g, deg, que, out, done
vars == <<g, deg, que, out, done>>

Init == \E E \in SUBSET (Nodes \X Nodes), U \in SUBSET Nodes :
          /\ g = [units |-> U, inters |-> Nodes \ U, edges |-> E, nodes |-> Nodes, dup |-> FALSE]
          /\ deg = [n \in Nodes |-> Cardinality(Preds(g, n))]
          /\ que = {n \in Nodes : deg[n] = 0}
          /\ out = <<>> /\ done = FALSE

Serve(n) == /\ n \in que
            /\ out' = Append(out, n)
            /\ deg' = [x \in Nodes |-> IF <<n, x>> \in g.edges THEN deg[x] - 1 ELSE deg[x]]
            /\ que' = (que \ {n}) \cup {x \in Nodes : <<n, x>> \in g.edges /\ deg[x] = 1}
            /\ UNCHANGED <<g, done>>

Finish == que = {} /\ ~done /\ done' = TRUE /\ UNCHANGED <<g, deg, que, out>>

Next == (\E n \in que : Serve(n)) \/ Finish
Spec == Init /\ [][Next]_vars

\* levels as the code computes them: along the order, from the direct predecessors
RECURSIVE Dist(_, _)
Dist(i, f) ==
  IF i > Len(out) THEN f
  ELSE LET n == out[i]
           v == {f[p] + (IF n \in g.units THEN 1 ELSE 0) : p \in Preds(g, n)}
       IN Dist(i + 1, [x \in DOMAIN f \cup {n} |-> IF x = n THEN IF v = {} THEN 0 ELSE Max(v) ELSE f[x]])

RECURSIVE ByLevel(_, _)
ByLevel(f, k) == IF k > N THEN <<>>
                 ELSE SelectSeq([i \in DOMAIN out |-> <<out[i], f[out[i]] + 1>>], LAMBDA x : x[2] = k + 1)
                      \o ByLevel(f, k + 1)

RefusesCycles == done => ((Len(out) # N) <=> Cyclic(g))
Right == (done /\ Len(out) = N) =>
           LET f == Dist(1, NoLevels) IN OrderVerdict(g, ByLevel(f, 0), Max({f[x] : x \in Nodes}) + 1) = "ok"
=============================================================================
