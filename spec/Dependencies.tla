---------------------------- MODULE Dependencies ----------------------------
(* Which inputs a clause rests on.  in: inputs; pre: premises of every clause   *)
(* in use; cur: premises of the derivation being tracked.                       *)
EXTENDS Common
DepIds == 0 .. 7
DepInit == [in |-> {}, pre |-> <<>>, cur |-> {}, on |-> FALSE]
LOCAL Use(s) == DOMAIN s.pre
LOCAL Learned(s) == Use(s) \ s.in
DepKinds == {"input", "learned", "link", "start", "track", "track2", "cancel", "commit", "delete"}
DepCalls(s, k) ==
  CASE k = "input" -> {C(k, <<x>>) : x \in DepIds \ Use(s)}
    [] k = "learned" -> {C(k, <<x>>) : x \in DepIds \ Use(s)}
    \* inputs are linked right after they are registered, before anything rests on them
    [] k = "link" -> {C(k, <<x, y>>) : x \in {z \in Use(s) : z \in s.in => \A w \in Use(s) \ {z} : z \notin s.pre[w]} \ s.cur, y \in Use(s)}
    [] k = "start" -> IF s.on THEN {} ELSE {C(k, <<>>)}
    [] k \in {"track", "track2"} -> IF s.on THEN {C("track", <<x>>) : x \in Use(s)} ELSE {}
    [] k = "cancel" -> IF s.on THEN {C(k, <<>>)} ELSE {}
    [] k = "commit" -> IF s.on THEN {C(k, <<x>>) : x \in Learned(s)} ELSE {}
    [] OTHER -> {C(k, <<x>>) : x \in Learned(s)}
DepAfter(s, c) ==
  LET x == IF c.a = <<>> THEN -1 ELSE c.a[1] IN
  CASE c.o = "input" -> [s EXCEPT !.in = @ \cup {x}, !.pre = (x :> {x}) @@ @]
    [] c.o = "learned" -> [s EXCEPT !.in = @ \ {x}, !.pre = (x :> {}) @@ @]
    [] c.o = "link" -> [s EXCEPT !.pre[x] = @ \cup s.pre[c.a[2]]]
    [] c.o = "start" -> [s EXCEPT !.on = TRUE, !.cur = {}]
    [] c.o = "track" -> [s EXCEPT !.cur = @ \cup s.pre[x]]
    [] c.o = "cancel" -> [s EXCEPT !.on = FALSE, !.cur = {}]
    [] c.o = "commit" -> [s EXCEPT !.pre[x] = @ \cup s.cur, !.on = FALSE, !.cur = {}]
    [] OTHER -> [s EXCEPT !.in = @ \ {x}, !.pre = Restrict(@, DOMAIN @ \ {x})]
DepWrong(s, e) ==
  LET t == DepAfter(s, e)
      d == Elems(e.d) IN
  Wrong({p[1] : p \in d} = DOMAIN t.pre, "clauses-in-use")
  \cup Wrong(\A p \in d : p[1] \in DOMAIN t.pre => Elems(p[2]) \subseteq t.pre[p[1]], "depends-on-too-much")
  \cup Wrong(\A p \in d : p[1] \in DOMAIN t.pre => t.pre[p[1]] \subseteq Elems(p[2]), "depends-on-too-little")
=============================================================================
