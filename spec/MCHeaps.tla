------------------------------- MODULE MCHeaps -------------------------------
(* The activity heap as an array: moving elements up and down keeps it ordered   *)
(* and keeps the index of positions.                                             *)
EXTENDS Common
CONSTANTS K, A
VARIABLES h, idx, act
vars == <<h, idx, act>>
Keys == 1 .. K
Acts == 0 .. A
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
RECURSIVE Up(_, _, _), Down(_, _, _)
Up(q, a, i) == IF i > 1 /\ a[q[i]] > a[q[i \div 2]] THEN Up(Swap(q, i, i \div 2), a, i \div 2) ELSE q
Down(q, a, i) ==
  IF 2 * i > Len(q) THEN q ELSE
  LET c == IF 2 * i + 1 <= Len(q) /\ a[q[2 * i + 1]] > a[q[2 * i]] THEN 2 * i + 1 ELSE 2 * i IN
  IF a[q[c]] <= a[q[i]] THEN q ELSE Down(Swap(q, i, c), a, c)
\* where the element at i ends up after moving up
RECURSIVE UpAt(_, _, _)
UpAt(q, a, i) == IF i > 1 /\ a[q[i]] > a[q[i \div 2]] THEN UpAt(Swap(q, i, i \div 2), a, i \div 2) ELSE i
Put(q, a) == h' = q /\ act' = a /\ idx' = [k \in Keys |-> IF \E i \in 1 .. Len(q) : q[i] = k THEN CHOOSE i \in 1 .. Len(q) : q[i] = k ELSE 0]
Cut(q) == SubSeq(q, 1, Len(q) - 1)
Init == h = <<>> /\ idx = [k \in Keys |-> 0] /\ act = [k \in Keys |-> 0]
Insert(k, a) == idx[k] = 0 /\ LET b == [act EXCEPT ![k] = a] IN Put(Up(Append(h, k), b, Len(h) + 1), b)
Update(k, a) == idx[k] # 0 /\ LET b == [act EXCEPT ![k] = a]  i == idx[k] IN Put(Down(Up(h, b, i), b, UpAt(h, b, i)), b)
\* as in update of the code, the element moves up and then what stands at its index moves down
Remove(k) == idx[k] # 0 /\ LET i == idx[k]  q == Cut(Swap(h, i, Len(h))) IN
             Put(IF i > Len(q) THEN q ELSE LET u == Up(q, act, i) IN Down(u, act, i), act)
Pop == h # <<>> /\ LET q == Cut(Swap(h, 1, Len(h))) IN Put(IF q = <<>> THEN q ELSE Down(q, act, 1), act)
Next == \/ \E k \in Keys, a \in Acts : Insert(k, a) \/ Update(k, a)
        \/ \E k \in Keys : Remove(k)
        \/ Pop
Spec == Init /\ [][Next]_vars
Ordered == \A i \in 2 .. Len(h) : act[h[i]] <= act[h[i \div 2]]
Indexed == \A k \in Keys : IF idx[k] = 0 THEN \A i \in 1 .. Len(h) : h[i] # k ELSE h[idx[k]] = k
\* the content changes as that of a set of keys would, and the top is maximal
Refines == /\ Cardinality(Elems(h)) = Len(h)
           /\ h # <<>> => \A i \in 1 .. Len(h) : act[h[i]] <= act[h[1]]
=============================================================================
