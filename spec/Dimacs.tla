------------------------------- MODULE Dimacs -------------------------------
(* What a DIMACS file says.  A file is a sequence of lines; a line is           *)
(* [w |-> its words, v |-> their values as whole numbers, q |-> 2 if the word is *)
(* a whole number, 1 another number, 0 none].                                    *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL IsNum(l, j) == l.q[j] = 2
First(s) == IF s = "" THEN "" ELSE SubSeq(s, 1, 1)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* weights and names of variables, in comments "cw <var> <weight>" and "co <var> <name>"
Weight(l) == Len(l.w) = 3 /\ l.w[1] = "cw" /\ IsNum(l, 2) /\ l.q[3] > 0 /\ l.v[2] > 0
Alias(l) == Len(l.w) = 3 /\ l.w[1] = "co" /\ IsNum(l, 2) /\ l.v[2] > 0
Problem(l) == l.w[1] = "p" /\ Len(l.w) >= 2 /\ Starts(l.w[2], "cnf")
ProblemOk(l) == Len(l.w) >= 4 /\ l.w[2] = "cnf" /\ IsNum(l, 3) /\ IsNum(l, 4) /\ l.v[3] >= 0 /\ l.v[4] >= 0
DimMax(S) == CHOOSE x \in S \cup {0} : \A y \in S : y <= x
AbsD(x) == IF x < 0 THEN -x ELSE x

\* r: cls the clauses read, cur the literals of the clause being read, open: is one, ok: no error so far, n: largest variable
\*    declared, body: a clause has been seen, end: nothing more is read
DimStart == [cls |-> <<>>, cur |-> {}, open |-> FALSE, ok |-> TRUE, n |-> 0, body |-> FALSE, end |-> FALSE]
RECURSIVE DimWords(_, _, _)
DimWords(l, j, r) ==
  IF j > Len(l.w) \/ r.end THEN r
  ELSE IF ~IsNum(l, j) THEN [r EXCEPT !.ok = FALSE, !.end = TRUE]
  ELSE IF l.v[j] = 0 THEN DimWords(l, j + 1, [r EXCEPT !.cls = Append(@, r.cur), !.cur = {}, !.open = FALSE])
  ELSE DimWords(l, j + 1, [r EXCEPT !.cur = @ \cup {l.v[j]}, !.open = TRUE, !.n = DimMax({@, AbsD(l.v[j])})])
DimLine(l, r, aliases) ==
  IF l.w = <<>> THEN r
  ELSE IF First(l.w[1]) = "c" THEN
    IF Weight(l) \/ (aliases /\ Alias(l)) THEN [r EXCEPT !.n = DimMax({@, l.v[2]})] ELSE r
  ELSE IF First(l.w[1]) = "%" THEN [r EXCEPT !.end = TRUE]
  ELSE IF Problem(l) THEN
    IF r.body THEN r
    ELSE IF ProblemOk(l) THEN [r EXCEPT !.n = DimMax({@, l.v[3]})]
    ELSE [r EXCEPT !.ok = FALSE, !.end = TRUE]
  ELSE DimWords(l, 1, [r EXCEPT !.body = TRUE])
RECURSIVE DimRead(_, _, _, _)
DimRead(f, k, r, aliases) ==
  IF k > Len(f) \/ r.end
  THEN IF r.ok /\ r.open THEN [r EXCEPT !.cls = Append(@, r.cur), !.open = FALSE] ELSE r
  ELSE DimRead(f, k + 1, DimLine(f[k], r, aliases), aliases)
DimFile(f, aliases) == DimRead(f, 1, DimStart, aliases)
=============================================================================
