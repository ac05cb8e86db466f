------------------------------ MODULE MCBitSets ------------------------------
(* The stored form of a bit set: per block of B words a set of used words, and   *)
(* only the used words are stored, one after the other.                          *)
EXTENDS Common
CONSTANTS W, B
Blocks == 0 .. 1
Universe == 0 .. 2 * W * B - 1
VARIABLES rep, x, other
\* rep: [md: block -> used words, d: stored words]
Word(e) == e \div W
Block(w) == w \div B
\* how many stored words come before word w
Offset(r, w) == Cardinality({u \in 0 .. w - 1 : (u % B) \in r.md[Block(u)]})
Used(r, w) == (w % B) \in r.md[Block(w)]
Get(r, e) == Used(r, Word(e)) /\ (e % W) \in r.d[Offset(r, Word(e)) + 1]
Insert(q, k, v) == SubSeq(q, 1, k) \o <<v>> \o SubSeq(q, k + 1, Len(q))
Drop(q, k) == SubSeq(q, 1, k) \o SubSeq(q, k + 2, Len(q))
SetBit(r, e) ==
  LET w == Word(e)  k == Offset(r, w) IN
  IF Used(r, w) THEN [r EXCEPT !.d[k + 1] = @ \cup {e % W}]
  ELSE [md |-> [r.md EXCEPT ![Block(w)] = @ \cup {w % B}], d |-> Insert(r.d, k, {e % W})]
ClrBit(r, e) ==
  LET w == Word(e)  k == Offset(r, w) IN
  IF ~Used(r, w) THEN r
  ELSE IF r.d[k + 1] \ {e % W} = {} THEN [md |-> [r.md EXCEPT ![Block(w)] = @ \ {w % B}], d |-> Drop(r.d, k)]
  ELSE [r EXCEPT !.d[k + 1] = @ \ {e % W}]
\* the stored form of a set
Store(s) == LET u == {w \in 0 .. 2 * B - 1 : \E e \in s : Word(e) = w} IN
            [md |-> [b \in Blocks |-> {w % B : w \in {y \in u : Block(y) = b}}],
             d |-> LET nth(k) == CHOOSE w \in u : Cardinality({y \in u : y < w}) = k - 1 IN
                   [k \in 1 .. Cardinality(u) |-> {e % W : e \in {y \in s : Word(y) = nth(k)}}]]
\* merging two stored forms word by word
Merge(r, t, Op(_, _)) ==
  LET at(q, w) == IF Used(q, w) THEN q.d[Offset(q, w) + 1] ELSE {}
      res(w) == Op(at(r, w), at(t, w))
      u == {w \in 0 .. 2 * B - 1 : res(w) # {}}
      nth(k) == CHOOSE w \in u : Cardinality({y \in u : y < w}) = k - 1
  IN [md |-> [b \in Blocks |-> {w % B : w \in {y \in u : Block(y) = b}}], d |-> [k \in 1 .. Cardinality(u) |-> res(nth(k))]]
And(p, q) == p \cap q
Or(p, q) == p \cup q
Xor(p, q) == (p \ q) \cup (q \ p)
Sub(p, q) == p \ q
\* register one is operated on; the other is any of a few shapes
Shapes == {{}, Universe, {0}, {2 * W * B - 1}, {W - 1, W}, {e \in Universe : e % W = 0}, {e \in Universe : Word(e) >= B}}
Init == x = {} /\ rep = Store({}) /\ other \in Shapes
Next == \/ \E e \in Universe : rep' = SetBit(rep, e) /\ x' = x \cup {e} /\ UNCHANGED other
        \/ \E e \in Universe : rep' = ClrBit(rep, e) /\ x' = x \ {e} /\ UNCHANGED other
        \/ rep' = Merge(rep, Store(other), And) /\ x' = x \cap other /\ UNCHANGED other
        \/ rep' = Merge(rep, Store(other), Or) /\ x' = x \cup other /\ UNCHANGED other
        \/ rep' = Merge(rep, Store(other), Xor) /\ x' = Xor(x, other) /\ UNCHANGED other
        \/ rep' = Merge(rep, Store(other), Sub) /\ x' = x \ other /\ UNCHANGED other
Spec == Init /\ [][Next]_<<rep, x, other>>
\* the stored form determines the set and is determined by it: comparing stored forms compares sets
Represents == rep = Store(x)
Answers == /\ \A e \in Universe : Get(rep, e) = (e \in x)
           /\ (rep = Store(other)) = (x = other)
           /\ (\A b \in Blocks : rep.md[b] = {}) = (x = {})
=============================================================================
