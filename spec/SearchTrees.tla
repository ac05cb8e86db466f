---------------------------- MODULE SearchTrees ----------------------------
(* The search tree is a set of key/data pairs; its shape is height-balanced.   *)
EXTENDS Common
TreeKeys == 1 .. 9
TreeData == 1 .. 3
TreeInit == {}
TreeKinds == {"insert", "insert2", "insert3", "remove", "remove2", "find"}
TreeCalls(s, k) ==
  CASE k \in {"insert", "insert2", "insert3"} -> {C("insert", <<x, d>>) : x \in TreeKeys, d \in TreeData}
    [] k = "remove" -> {C("remove", <<x, d>>) : x \in TreeKeys, d \in TreeData}
    [] k = "remove2" -> {C("remove", p) : p \in s}
    [] OTHER -> {C("find", <<x>>) : x \in 0 .. 10}
TreeAfter(s, c) == CASE c.o = "insert" -> s \cup {c.a} [] c.o = "remove" -> s \ {c.a} [] OTHER -> s
TreeBestFit(s, k) == {p \in s : p[1] >= k /\ \A q \in s : q[1] >= k => p[1] <= q[1]}
\* the tree listed in order with depths: the height of the part i..j rooted at depth d, or -1 if it is no balanced tree
RECURSIVE TreeHeight(_, _, _, _)
TreeHeight(depth, i, j, d) ==
  IF i > j THEN 0 ELSE
  LET roots == {x \in i .. j : depth[x] = d} IN
  IF Cardinality(roots) # 1 THEN -1 ELSE
  LET r == CHOOSE x \in roots : TRUE
      l == TreeHeight(depth, i, r - 1, d + 1)
      h == TreeHeight(depth, r + 1, j, d + 1)
  IN IF l < 0 \/ h < 0 \/ l - h > 1 \/ h - l > 1 THEN -1 ELSE 1 + IF l > h THEN l ELSE h
LOCAL Count(q, x) == Cardinality({i \in 1 .. Len(q) : q[i] = x})
TreeWrong(s, e) ==
  (CASE e.o = "insert" -> Wrong(e.v = Bool(e.a \notin s), "insert-result")
     [] e.o = "remove" -> Wrong(e.v = Bool(e.a \in s), "remove-result")
     [] OTHER -> LET b == TreeBestFit(s, e.a[1]) IN Wrong(e.v \in IF b = {} THEN {0} ELSE {p[2] : p \in b}, "best-fit"))
  \cup Wrong(e.bal = 1, "reported-unbalanced") \cup Wrong(e.bst = 1, "reported-unordered")
  \cup IF e.rd = 0 THEN {} ELSE
       LET t == TreeAfter(s, e) IN
       Wrong(\A x \in 1 .. Len(e.keys) - 1 : e.keys[x] <= e.keys[x + 1], "unordered")
       \cup Wrong(Len(e.keys) = Cardinality(t) /\ \A k \in {p[1] : p \in t} : Count(e.keys, k) = Cardinality({p \in t : p[1] = k}), "content")
       \cup Wrong(TreeHeight(e.depth, 1, Len(e.depth), 0) >= 0, "unbalanced")
=============================================================================
