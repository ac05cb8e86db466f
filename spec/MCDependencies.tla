--------------------------- MODULE MCDependencies ---------------------------
(* The premises kept per clause are the inputs reachable in the derivation as    *)
(* it was recorded.                                                              *)
EXTENDS Dependencies
CONSTANTS Ids, Depth
VARIABLES s, g, v, cur, n
\* g: the derivation, node -> [in, up]; v: name -> its node; cur: nodes tracked.  A node never changes: linking and
\* committing make a new node on top of the old one.
Names == 0 .. Ids - 1
Nodes == DOMAIN g
RECURSIVE Reach(_, _)
Reach(todo, done) == IF todo \subseteq done THEN done ELSE LET m == CHOOSE x \in todo \ done : TRUE IN Reach(todo \cup g[m].up, done \cup {m})
Inputs(m) == {g[x].in : x \in {y \in Reach({m}, {}) : g[y].in >= 0}}
Init == s = DepInit /\ g = <<>> /\ v = <<>> /\ cur = {} /\ n = 0
New(in, up) == g' = Append(g, [in |-> in, up |-> up])
Point(x) == v' = (x :> (Len(g) + 1)) @@ v
Step(c) ==
  /\ s' = DepAfter(s, c) /\ n' = n + 1
  /\ LET x == IF c.a = <<>> THEN -1 ELSE c.a[1] IN
     CASE c.o = "input" -> New(x, {}) /\ Point(x) /\ UNCHANGED cur
       [] c.o = "learned" -> New(-1, {}) /\ Point(x) /\ UNCHANGED cur
       [] c.o = "link" -> New(-1, {v[x], v[c.a[2]]}) /\ Point(x) /\ UNCHANGED cur
       [] c.o = "start" -> cur' = {} /\ UNCHANGED <<g, v>>
       [] c.o = "track" -> cur' = cur \cup {v[x]} /\ UNCHANGED <<g, v>>
       [] c.o = "cancel" -> cur' = {} /\ UNCHANGED <<g, v>>
       [] c.o = "commit" -> New(-1, {v[x]} \cup cur) /\ Point(x) /\ cur' = {}
       [] OTHER -> v' = Restrict(v, DOMAIN v \ {x}) /\ UNCHANGED <<g, cur>>
Small(c) == \A x \in 1 .. Len(c.a) : c.a[x] \in Names
Next == n < Depth /\ \E k \in DepKinds : \E c \in {y \in DepCalls(s, k) : Small(y)} : Step(c)
Spec == Init /\ [][Next]_<<s, g, v, cur, n>>
Reachable == /\ DOMAIN s.pre = DOMAIN v
             /\ \A x \in DOMAIN v : s.pre[x] = Inputs(v[x])
=============================================================================
