------------------------------- MODULE Common -------------------------------
(* Helpers shared by the component specifications.  Every component defines    *)
(*   XInit        the initial state                                            *)
(*   XCalls(s)    the calls allowed in state s, as [o |-> name, a |-> args]    *)
(*   XAfter(s,c)  the state after call c                                       *)
(*   XWrong(s,e)  labels of what is wrong with the recorded outcome e          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Wrong(c, l) == IF c THEN {} ELSE {l}
Elems(q) == {q[x] : x \in 1 .. Len(q)}
Ascending(q) == \A x \in 1 .. Len(q) - 1 : q[x] < q[x + 1]
C(o, a) == [o |-> o, a |-> a]
Bool(b) == IF b THEN 1 ELSE 0
Restrict(f, D) == [x \in D |-> f[x]]
=============================================================================
