---------------------------- MODULE MCRefutations ----------------------------
(* What the proof store accepts follows: clauses with correct chains are         *)
(* consequences of the inputs, whatever the names, deletions and wrong chains.   *)
EXTENDS Refutations
CONSTANT Ids
VARIABLE s
V == 1 .. 2
L == {-2, -1, 1, 2}
Clauses == {c \in SUBSET L : \A l \in c : -l \notin c}
Assigns == [V -> {TRUE, FALSE}]
Sat(a, c) == \E l \in c : IF l > 0 THEN a[l] ELSE ~a[-l]
Holds(a, i) == Sat(a, s.db[i].c)
Init == s = RefInit
\* the inputs come first, in any fixed order
Input == (\A i \in 1 .. Len(s.db) : s.db[i].ch = <<>>) /\ \E c \in Clauses \ {{}} : s' = RefAfter(s, C("input", <<Len(s.db)>> \o RefOrder(c)))
\* a chain over two earlier clauses, right or wrong, and a clause claimed to be its end
Derive == \E a \in DOMAIN s.at, b \in DOMAIN s.at, l \in L : \E c \in {Resolve(s.db[s.at[a]].c, s.db[s.at[b]].c, l), {}, s.db[s.at[a]].c \ {l}} :
            s' = [s EXCEPT !.db = Append(@, [c |-> c, ch |-> <<<<0, s.at[a]>>, <<l, s.at[b]>>>>]), !.at = (Len(s.db) :> (Len(s.db) + 1)) @@ @,
                           !.empty = IF c = {} THEN Len(s.db) + 1 ELSE @]
Next == Len(s.db) < Ids /\ (Input \/ Derive)
Spec == Init /\ [][Next]_s
InputsOf(S) == {i \in S : s.db[i].ch = <<>>}
StepsFollow == \A i \in 1 .. Len(s.db) :
                 LET u == RefFrom(s.db, {i}, {}) IN
                 (\A j \in u : RefStep(s.db, j)) => \A a \in Assigns : (\A j \in InputsOf(u) : Holds(a, j)) => Holds(a, i)
EmptyUnsat == (s.empty # 0 /\ RefValid(s)) => \A a \in Assigns : \E j \in InputsOf(RefUsed(s)) : ~Holds(a, j)
=============================================================================
