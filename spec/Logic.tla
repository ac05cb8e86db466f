------------------------------- MODULE Logic -------------------------------
(* Propositional logic as needed by the solver specifications.               *)
(* A literal is a non-zero integer (DIMACS), a clause is a set of literals,   *)
(* a total assignment of variables 1..n is an integer in 0..2^n-1 whose bit   *)
(* v-1 is the value of variable v.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Var(l) == IF l < 0 THEN -l ELSE l
Range(f) == {f[x] : x \in DOMAIN f}
Neg(S) == {-x : x \in S}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Max0(S) == IF S = {} THEN 0 ELSE MaxOf(S)

Bit == [v \in 1..16 |-> 2 ^ (v - 1)]
LitSat(m, l) == IF l > 0 THEN (m \div Bit[l]) % 2 = 1 ELSE (m \div Bit[-l]) % 2 = 0
ClauseSat(m, c) == \E l \in c : LitSat(m, l)
Assignments(n) == 0 .. (2 ^ n - 1)
\* the assignments of M that satisfy the clause c / all clauses of the set cs / all literals of L
Filter(M, c) == {m \in M : ClauseSat(m, c)}
FilterAll(M, cs) == {m \in M : \A c \in cs : ClauseSat(m, c)}
FilterLits(M, L) == {m \in M : \A l \in L : LitSat(m, l)}
\* the assignments M all satisfy the clause
Entails(M, c) == \A m \in M : ClauseSat(m, c)
ToAssignment(n, L) == LET bits == {l \in L : l > 0 /\ l <= n}
                          RECURSIVE Sum(_)
                          Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Bit[x] + Sum(S \ {x})
                      IN Sum(bits)

Tautology(c) == \E x \in c : -x \in c

(* ---- unit propagation ---- *)
RECURSIVE UPStep(_, _)
\* [bad |-> a clause of cs is falsified after unit propagation from the literals tr, tr |-> the literals reached]
UPStep(cs, tr) ==
  LET live == {c \in cs : c \cap tr = {}}
      rest == {{x \in c : -x \notin tr} : c \in live}
      units == UNION {r \in rest : Cardinality(r) = 1}
  IN IF {} \in rest \/ (\E u \in units : -u \in units) THEN [bad |-> TRUE, tr |-> tr]
     ELSE IF units = {} THEN [bad |-> FALSE, tr |-> tr]
     ELSE UPStep(live, tr \cup units)
UPConflict(cs, L) == UPStep(cs, L).bad
\* reverse unit propagation: assuming the negation of c, unit propagation over cs fails
RUP(cs, c) == Tautology(c) \/ UPConflict(cs, Neg(c))

(* ---- resolution ---- *)
Resolvents(a, b) == {(a \ {x}) \cup (b \ {-x}) : x \in {y \in a : -y \in b}}
=============================================================================
