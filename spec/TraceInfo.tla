----------------------------- MODULE TraceInfo -----------------------------
(* What the architecture tool tells about an architecture.  Each line:       *)
(*   arch     its name                                                       *)
(*   ops      its declarations (Prop)                                        *)
(*   helps    the names each tool lists;  known: the names there are         *)
(*   tried    << <<name, accepted>> >> names given to the tools              *)
(*   info     the exit status of the information request is zero             *)
(*   order    << <<name, displayed level, shown as unit>> >> as displayed    *)
(*   nodes    << <<name, drawn as unit>> >> of the dependency graph          *)
(*   links    << <<from, to>> >> of the dependency graph                     *)
(*   cost     the cost of a cycle the tool reports in a run (-1: no run)     *)
EXTENDS Prop, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, g, why
vars == <<tid, l, g, why>>

Init == tid \in 1..Len(Runs) /\ l = 0 /\ g = Empty /\ why = ""

Step == /\ l < Len(Runs[tid].ops)
        /\ g' = Declare(g, Runs[tid].ops[l + 1])
        /\ l' = l + 1 /\ UNCHANGED <<tid, why>>

ToSet(q) == {q[i] : i \in DOMAIN q}

Listed(o) == \A i \in DOMAIN o.helps :
  ToSet(o.helps[i]) = ToSet(o.known) /\ Len(o.helps[i]) = Len(o.known)

Chosen(o) == \A i \in DOMAIN o.tried : o.tried[i][2] = (o.tried[i][1] \in ToSet(o.known))

Drawn(o) ==
  CASE {<<n[1], n[2]>> : n \in ToSet(o.nodes)} # {<<n, n \in g.units>> : n \in g.nodes} -> "graph: nodes"
    [] Len(o.nodes) # Cardinality(g.nodes) -> "graph: a node twice"
    [] {<<e[1], e[2]>> : e \in ToSet(o.links)} # g.edges -> "graph: links"
    [] Len(o.links) # Cardinality(g.edges) -> "graph: a link twice"
    [] OTHER -> "ok"

Shown(o) == LET v == OrderVerdict(g, o.order, o.cost)
            IN IF v # "ok" THEN "information: " \o v
               ELSE IF \E i \in DOMAIN o.order : o.order[i][3] # (o.order[i][1] \in g.units)
               THEN "information: kind of a node"
               ELSE "ok"

Judge ==
  /\ l = Len(Runs[tid].ops) /\ why = ""
  /\ LET o == Runs[tid]
     IN why' = CASE ~Listed(o) -> "list of architectures"
                 [] ~Chosen(o) -> "choice of an architecture"
                 [] ~o.info -> "information refused"
                 [] Shown(o) # "ok" -> Shown(o)
                 [] OTHER -> Drawn(o)
  /\ UNCHANGED <<tid, l, g>>

Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
Conforms == why \in {"", "ok"}
=============================================================================
