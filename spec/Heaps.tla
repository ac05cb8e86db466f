------------------------------- MODULE Heaps -------------------------------
(* The activity heap is a finite map from keys to activities.  Activities are  *)
(* kept as integers scaled by 2^halvings, because normalising halves them all. *)
EXTENDS Common
HeapKeys == 1 .. 12
HeapActs == 0 .. 9
HeapInit == [f |-> <<>>, m |-> 0]
LOCAL Dom(s) == DOMAIN s.f
LOCAL Val(s, a) == a * 2 ^ s.m
LOCAL Max(s) == {k \in Dom(s) : \A x \in Dom(s) : s.f[x] <= s.f[k]}
HeapKinds == {"insert", "insert2", "insert3", "remove", "inc", "upd", "norm", "pop", "top"}
HeapCalls(s, k) ==
  CASE k \in {"insert", "insert2", "insert3"} -> {C("insert", <<x, a>>) : x \in HeapKeys \ Dom(s), a \in HeapActs}
    [] k = "remove" -> {C("remove", <<x>>) : x \in Dom(s)}
    [] k = "inc" -> {C("inc", p) : p \in {q \in Dom(s) \X HeapActs : s.f[q[1]] <= Val(s, q[2])}}
    [] k = "upd" -> {C("upd", <<x, a>>) : x \in Dom(s), a \in HeapActs}
    [] k = "norm" -> IF s.m < 6 THEN {C("norm", <<>>)} ELSE {}
    \* what may follow a pop is known only if the maximum is unique (every event drains a copy of the heap anyway)
    [] k = "pop" -> IF Cardinality(Max(s)) = 1 THEN {C(k, <<>>)} ELSE {}
    [] OTHER -> IF Dom(s) = {} THEN {} ELSE {C(k, <<>>)}
HeapAfter(s, e) ==
  CASE e.o = "insert" -> [s EXCEPT !.f = (e.a[1] :> Val(s, e.a[2])) @@ s.f]
    [] e.o = "remove" -> [s EXCEPT !.f = Restrict(s.f, Dom(s) \ {e.a[1]})]
    [] e.o \in {"inc", "upd"} -> [s EXCEPT !.f[e.a[1]] = Val(s, e.a[2])]
    [] e.o = "norm" -> [s EXCEPT !.m = s.m + 1]
    [] e.o = "pop" -> [s EXCEPT !.f = Restrict(s.f, Dom(s) \ {e.v})]
    [] OTHER -> s
HeapGen(s, c) == IF c.o = "pop" THEN HeapAfter(s, [c EXCEPT !.o = "remove", !.a = <<CHOOSE k \in Max(s) : TRUE>>]) ELSE HeapAfter(s, c)
HeapWrong(s, e) ==
  Wrong(e.o \notin {"pop", "top"} \/ e.v \in Max(s), "not-maximal")
  \cup LET t == HeapAfter(s, e) IN
       Wrong(e.n = Cardinality(Dom(t)), "size") \cup Wrong(e.em = Bool(Dom(t) = {}), "emptiness") \cup Wrong(Elems(e.mem) = Dom(t), "membership")
       \cup IF Elems(e.dr) = Dom(t) /\ Len(e.dr) = Cardinality(Dom(t))
            THEN Wrong(\A x \in 1 .. Len(e.dr) - 1 : t.f[e.dr[x]] >= t.f[e.dr[x + 1]], "order") ELSE {"content"}
=============================================================================
