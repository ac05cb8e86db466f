----------------------------- MODULE MCRepairs ------------------------------
(* Design model: how graph backtracking finds its choices.  A worklist of      *)
(* prefixes, shortest first (decisions taken so far plus conflicts left), each *)
(* extended to the left only; it ends with exactly the minimal sets of         *)
(* decisions that resolve all conflicts (MinimalHits).                         *)
EXTENDS Solver, FiniteSetsExt

CONSTANTS K,       \* decisions 1..K, numbered by their chunks
          M,       \* different conflicts
          Twice    \* TRUE: a set of decisions may be responsible for two conflicts
VARIABLES conf, todo, found
vars == <<conf, todo, found>>

\* a conflict: what it rests on, and which of the two it is
Kinds == {k \in UNION {kSubset(m, (SUBSET (1..K) \ {{}}) \X (IF Twice THEN {1, 2} ELSE {1})) : m \in 1..M} : \A c \in k : c[2] = 2 => <<c[1], 1>> \in k}
Left(p) == {c \in conf : c[1] \cap p = {}}
Cost(p) == Cardinality(p) + Cardinality(Left(p))
Init == conf \in Kinds /\ todo = {{}} /\ found = {}
Next == /\ todo # {}
        /\ \E p \in {q \in todo : \A r \in todo : Cost(q) <= Cost(r)} :
             IF \E q \in found : q \subseteq p THEN todo' = todo \ {p} /\ UNCHANGED found
             ELSE IF Left(p) = {} THEN /\ found' = {q \in found : ~(p \subseteq q)} \cup {p}
                                       /\ todo' = todo \ {p}
             ELSE /\ todo' = (todo \ {p}) \cup {p \cup {d} : d \in {x \in UNION {c[1] : c \in Left(p)} : \A y \in p : x < y}}
                  /\ UNCHANGED found
        /\ UNCHANGED conf
Spec == Init /\ [][Next]_vars

Complete == todo = {} => found = MinimalHits({c[1] : c \in conf})
Irredundant == \A p, q \in found : p \subseteq q => p = q
=============================================================================
