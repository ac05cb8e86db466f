---------------------------- MODULE Refutations ----------------------------
(* The proof store: clauses in the order they were added, each an input or the *)
(* end of a resolution chain over earlier clauses; names are reused.            *)
EXTENDS Common
RefVars == 1 .. 3
RefNames == 0 .. 9
RefLits == {l \in -3 .. 3 : l # 0}
\* db: sequence of [c: clause, ch: chain <<pivot, index>>]; at: name -> index; cur: chain being built; ok: is cur a sequence of resolutions; res: its resolvent
RefInit == [db |-> <<>>, at |-> <<>>, cur |-> <<>>, ok |-> TRUE, res |-> {}, open |-> FALSE, empty |-> 0]
LOCAL Taut(c) == \E l \in c : -l \in c
Resolvable(c, d, l) == l \in c /\ -l \in d
Resolve(c, d, l) == (c \ {l}) \cup (d \ {-l})
\* is the clause at index i derived by its chain?
RECURSIVE ChainEnd(_, _, _, _)
ChainEnd(db, ch, k, c) == IF k > Len(ch) THEN <<TRUE, c>>
                          ELSE LET d == db[ch[k][2]].c IN
                               IF Resolvable(c, d, ch[k][1]) THEN ChainEnd(db, ch, k + 1, Resolve(c, d, ch[k][1])) ELSE <<FALSE, c>>
RefStep(db, i) == db[i].ch = <<>> \/ ChainEnd(db, db[i].ch, 2, db[db[i].ch[1][2]].c) = <<TRUE, db[i].c>>
RECURSIVE RefFrom(_, _, _)
RefFrom(db, todo, done) == IF todo = {} THEN done
                           ELSE LET i == CHOOSE x \in todo : TRUE
                                    n == {db[i].ch[x][2] : x \in 1 .. Len(db[i].ch)}
                                IN RefFrom(db, (todo \cup n) \ (done \cup {i}), done \cup {i})
RefUsed(s) == RefFrom(s.db, {s.empty}, {})
RefValid(s) == \A i \in RefUsed(s) : RefStep(s.db, i)
LOCAL Start(s, n) == s.db[s.at[n]].c
RefKinds == {"input", "input2", "begin", "link", "link2", "link3", "link4", "cancel", "derive", "derive2", "drop", "check", "print"}
\* calls within the documented preconditions that build correct proofs
RECURSIVE RefOrder(_)
RefOrder(c) == IF c = {} THEN <<>> ELSE LET m == CHOOSE x \in c : \A y \in c : x <= y IN <<m>> \o RefOrder(c \ {m})
RefCalls(s, k) ==
  LET names == DOMAIN s.at  free == RefNames \ names IN
  CASE k \in {"input", "input2"} -> IF Len(s.db) > 8 THEN {} ELSE
         {C("input", <<n>> \o RefOrder(c)) : n \in free, c \in {x \in SUBSET RefLits : Cardinality(x) \in 1 .. 3 /\ ~Taut(x)}}
    [] k = "begin" -> IF s.open \/ names = {} THEN {} ELSE {C("start", <<>>)}
    [] k \in {"link", "link2", "link3", "link4"} -> IF ~s.open THEN {} ELSE IF s.cur = <<>> THEN {C("link", <<0, n>>) : n \in names}
         ELSE {C("link", p) : p \in {q \in RefLits \X names : Resolvable(s.res, Start(s, q[2]), q[1]) /\ ~Taut(Resolve(s.res, Start(s, q[2]), q[1]))}}
    [] k = "cancel" -> IF s.open THEN {C("cancel", <<>>)} ELSE {}
    [] k \in {"derive", "derive2"} -> IF Len(s.cur) >= 2 THEN {C("derive", <<n>> \o RefOrder(s.res)) : n \in free} ELSE {}
    [] k = "drop" -> {C("drop", <<n>>) : n \in names}
    [] OTHER -> IF s.empty # 0 /\ ~s.open THEN {C(k, <<>>)} ELSE {}
RefAfter(s, e) ==
  LET c == {e.a[x] : x \in 2 .. Len(e.a)}
      add(ch) == [s EXCEPT !.db = Append(@, [c |-> c, ch |-> ch]), !.at = (e.a[1] :> (Len(s.db) + 1)) @@ @,
                           !.empty = IF c = {} THEN Len(s.db) + 1 ELSE @] IN
  CASE e.o = "input" -> add(<<>>)
    [] e.o = "start" -> [s EXCEPT !.open = TRUE, !.cur = <<>>, !.res = {}]
    [] e.o = "link" -> LET i == s.at[e.a[2]] IN
         [s EXCEPT !.cur = Append(@, <<e.a[1], i>>), !.res = IF s.cur = <<>> THEN s.db[i].c ELSE Resolve(@, s.db[i].c, e.a[1])]
    [] e.o = "cancel" -> [s EXCEPT !.open = FALSE, !.cur = <<>>, !.res = {}]
    [] e.o = "derive" -> [add(s.cur) EXCEPT !.open = FALSE, !.cur = <<>>, !.res = {}]
    [] e.o = "drop" -> [s EXCEPT !.at = Restrict(@, DOMAIN @ \ {e.a[1]})]
    [] OTHER -> s
\* the printed proof: every line an input or a resolution of two earlier lines; ends with the empty clause
RECURSIVE RefLines(_, _, _, _)
RefLines(pl, k, got, ins) ==
  IF k > Len(pl) THEN Wrong(\E n \in DOMAIN got : got[n] = {}, "printed-incomplete")
  ELSE LET p == pl[k]  c == Elems(p.c) IN
       (IF p.f = "" THEN Wrong(c \in ins, "printed-input-unknown")
        ELSE IF p.f \notin DOMAIN got \/ p.w \notin DOMAIN got THEN {"printed-line-unknown"}
        ELSE Wrong(\E l \in got[p.f] : -l \in got[p.w] /\ c = Resolve(got[p.f], got[p.w], l), "printed-step-wrong"))
       \cup RefLines(pl, k + 1, (p.i :> c) @@ got, ins)
RefWrong(s, e) ==
  CASE e.o = "check" -> Wrong(e.v = 1 \/ ~RefValid(s), "correct-proof-rejected") \cup Wrong(e.v = 0 \/ RefValid(s), "wrong-proof-accepted")
    [] e.o = "print" -> IF RefValid(s) THEN RefLines(e.pl, 1, <<>>, {s.db[i].c : i \in {x \in RefUsed(s) : s.db[x].ch = <<>>}}) ELSE {}
    [] OTHER -> {}
=============================================================================
