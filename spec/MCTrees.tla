------------------------------- MODULE MCTrees -------------------------------
(* Insertion and removal with rotations keep the tree ordered and balanced.      *)
EXTENDS Common
CONSTANTS K, D
VARIABLES t, s
Pairs == (1 .. K) \X (1 .. D)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
E == <<>>                                  \* the empty tree; others are <<left, pair, right, height>>
H(n) == IF n = E THEN 0 ELSE n[4]
N(l, p, r) == <<l, p, r, 1 + IF H(l) > H(r) THEN H(l) ELSE H(r)>>
RotL(n) == N(N(n[1], n[2], n[3][1]), n[3][2], n[3][3])
RotR(n) == N(n[1][1], n[1][2], N(n[1][3], n[2], n[3]))
Bal(n) == H(n[1]) - H(n[3])
Fix(n) == IF Bal(n) > 1 THEN (IF Bal(n[1]) >= 0 THEN RotR(n) ELSE RotR(N(RotL(n[1]), n[2], n[3])))
          ELSE IF Bal(n) < -1 THEN (IF Bal(n[3]) <= 0 THEN RotL(n) ELSE RotL(N(n[1], n[2], RotR(n[3]))))
          ELSE n
RECURSIVE Ins(_, _), Del(_, _), Low(_), All(_), Balanced(_), Sorted(_), Best(_, _, _)
Ins(n, p) == IF n = E THEN N(E, p, E) ELSE IF n[2] = p THEN n
             ELSE IF Less(p, n[2]) THEN Fix(N(Ins(n[1], p), n[2], n[3])) ELSE Fix(N(n[1], n[2], Ins(n[3], p)))
Low(n) == IF n[1] = E THEN n[2] ELSE Low(n[1])
Del(n, p) == IF n = E THEN E
             ELSE IF Less(p, n[2]) THEN Fix(N(Del(n[1], p), n[2], n[3]))
             ELSE IF n[2] # p THEN Fix(N(n[1], n[2], Del(n[3], p)))
             ELSE IF n[1] = E THEN n[3] ELSE IF n[3] = E THEN n[1]
             ELSE Fix(N(n[1], Low(n[3]), Del(n[3], Low(n[3]))))
All(n) == IF n = E THEN <<>> ELSE All(n[1]) \o <<n[2]>> \o All(n[3])
Balanced(n) == n = E \/ (Bal(n) \in -1 .. 1 /\ Balanced(n[1]) /\ Balanced(n[3]))
\* the walk of best-fit lookup: stop at the key, else remember the last larger one
Best(n, k, b) == IF n = E THEN b ELSE IF n[2][1] = k THEN n[2] ELSE IF k < n[2][1] THEN Best(n[1], k, n[2]) ELSE Best(n[3], k, b)
Sorted(q) == \A i \in 1 .. Len(q) - 1 : Less(q[i], q[i + 1])
Init == t = E /\ s = {}
Next == \E p \in Pairs : \/ t' = Ins(t, p) /\ s' = s \cup {p}
                         \/ t' = Del(t, p) /\ s' = s \ {p}
Spec == Init /\ [][Next]_<<t, s>>
Shape == Balanced(t) /\ Sorted(All(t))
Content == Elems(All(t)) = s
BestFit == \A k \in 0 .. K + 1 :
             LET b == Best(t, k, <<>>)  up == {p \in s : p[1] >= k} IN
             IF up = {} THEN b = <<>> ELSE b \in up /\ \A p \in up : b[1] <= p[1]
=============================================================================
