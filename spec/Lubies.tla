------------------------------- MODULE Lubies -------------------------------
(* The restart sequence: round r consists of the gaps 1, 1, 2, 4, ..., 2^r.     *)
EXTENDS Common
LubyGap(i) == IF i = 1 THEN 1 ELSE 2 ^ (i - 2)
\* [r: round, i: position in it, left: increments missing to the next restart]
LubyInit == [r |-> 1, i |-> 1, left |-> 1, last |-> 0]
LubyAdvance(s) == LET n == IF s.i = s.r + 2 THEN [r |-> s.r + 1, i |-> 1] ELSE [r |-> s.r, i |-> s.i + 1]
                  IN [r |-> n.r, i |-> n.i, left |-> LubyGap(n.i), last |-> 0]
\* the gaps completed by n increments, the first one having started s.last increments ago
RECURSIVE LubyRun(_, _, _)
LubyRun(s, n, out) == IF n < s.left THEN [s |-> [s EXCEPT !.left = @ - n, !.last = @ + n], out |-> out]
                      ELSE LubyRun(LubyAdvance(s), n - s.left, Append(out, s.last + s.left))
LubyKinds == {"run", "reset"}
LubyCalls(s, k) == IF k = "run" THEN {C("run", <<n>>) : n \in {1, 2, 3, 4, 5, 7, 8, 11, 16, 33, 64, 100, 257, 1000}} ELSE {C("reset", <<>>)}
LubyAfter(s, c) == IF c.o = "reset" THEN LubyInit ELSE LubyRun(s, c.a[1], <<>>).s
LubyWrong(s, e) == IF e.o = "reset" THEN {} ELSE Wrong(LubyRun(s, e.a[1], <<>>).out = e.v, "sequence")
=============================================================================
