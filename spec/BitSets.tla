------------------------------ MODULE BitSets ------------------------------
(* Registers holding bit sets are registers holding sets of naturals.         *)
EXTENDS Common
LOCAL Regs == 1 .. 4
\* elements around the word (64) and block (63*64 = 4032) boundaries of the representation
BitUniverse == {0, 1, 31, 62, 63, 64, 65, 127, 128, 2047, 3967, 3968, 4031, 4032, 4033, 4095, 4096, 8063, 8064, 8127, 8128, 12095, 12096}
BitCaps == {1, 64, 4032, 4033, 8064, 8065, 12097, 16128}
\* s.v: the sets, s.cap: capacity asked for (shared by all registers, as the operations require)
BitInit == [v |-> [r \in Regs |-> {}], cap |-> 0]
BitFits(s) == {x \in BitUniverse : x < s.cap}
LOCAL Three == {"and", "or", "xor", "sub"}
LOCAL Two == {"iand", "ior", "ixor", "isub"}
LOCAL Combine(o, x, y) == CASE o \in {"and", "iand"} -> x \cap y [] o \in {"or", "ior"} -> x \cup y
                            [] o \in {"xor", "ixor"} -> (x \ y) \cup (y \ x) [] o \in {"sub", "isub"} -> x \ y
BitKinds == {"set", "clr", "clear", "resize", "copy", "get", "cmp", "full"} \cup Three \cup Two
BitCalls(s, k) ==
  IF s.cap = 0 THEN {C("init", <<c>>) : c \in BitCaps} ELSE
  CASE k = "set" -> {C("set", <<r, x, 1>>) : r \in Regs, x \in BitFits(s)}
    [] k = "clr" -> {C("set", <<r, x, 0>>) : r \in Regs, x \in BitFits(s)}
    [] k = "clear" -> {C("clear", <<r>>) : r \in Regs}
    [] k = "resize" -> {C("grow", <<c>>) : c \in {y \in BitCaps : y >= s.cap}}
    [] k = "copy" -> {C("copy", <<x, y>>) : x \in Regs, y \in Regs}
    [] k = "get" -> {C("get", <<r, x>>) : r \in Regs, x \in BitFits(s)}
    [] k = "cmp" -> {C("cmp", <<x, y>>) : x \in Regs, y \in Regs}
    [] k \in Three -> {C(k, <<z, x, y>>) : z \in Regs, x \in Regs, y \in Regs}
    [] k \in Two -> {C(k, <<x, y>>) : x \in Regs, y \in Regs}
    [] OTHER -> {C("set", <<r, x, 1>>) : r \in Regs, x \in {y \in BitFits(s) : y % 64 \in {0, 63}}}
BitAfter(s, c) ==
  LET a == c.a
      put(r, x) == [s EXCEPT !.v[r] = x] IN
  CASE c.o = "new" -> [s EXCEPT !.v[a[1]] = {}, !.cap = a[2]]
    [] c.o = "init" -> [s EXCEPT !.cap = a[1]]
    [] c.o = "grow" -> [s EXCEPT !.cap = a[1]]
    [] c.o = "set" -> put(a[1], IF a[3] = 1 THEN s.v[a[1]] \cup {a[2]} ELSE s.v[a[1]] \ {a[2]})
    [] c.o = "clear" -> put(a[1], {})
    [] c.o = "copy" -> put(a[1], s.v[a[2]])
    [] c.o \in Three -> put(a[1], Combine(c.o, s.v[a[2]], s.v[a[3]]))
    [] c.o \in Two -> put(a[1], Combine(c.o, s.v[a[1]], s.v[a[2]]))
    [] OTHER -> s
BitWrong(s, e) ==
  CASE e.o = "get" -> Wrong(e.v = Bool(e.a[2] \in s.v[e.a[1]]), "membership")
    [] e.o = "cmp" -> LET x == s.v[e.a[1]]  y == s.v[e.a[2]] IN
         Wrong(e.v = <<Bool(x = y), Bool(x # y), Bool(x \subseteq y), Bool(y \subseteq x), Bool(x \subseteq y /\ x # y), Bool(y \subseteq x /\ x # y),
                       Bool(x \cap y # {}), Bool(x \ y # {})>>, "comparison")
    [] OTHER -> LET x == BitAfter(s, e).v[e.a[1]] IN
         Wrong(Elems(e.el) = x, "elements") \cup Wrong(Ascending(e.el), "iteration-order") \cup Wrong(e.n = Cardinality(x), "count")
         \cup Wrong(e.em = Bool(x = {}), "emptiness") \cup Wrong(e.txt = 1, "text")
         \cup Wrong(e.o \notin {"new", "resize"} \/ e.cap >= e.a[2], "capacity")
=============================================================================
