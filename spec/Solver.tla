------------------------------- MODULE Solver -------------------------------
(* Abstract machine of the NapSAT solver: what its public calls promise and    *)
(* what each step of its search (assignment, learning, deletion, retraction)   *)
(* may do.  Every transition comes as a pair                                   *)
(*    G<Name>(s, ...)  the set of labels of the guards the step breaks         *)
(*    E<Name>(s, ...)  the state after the step                                *)
(* so that the design model (MCSolver) takes only the steps whose guard set is *)
(* empty, while trace validation (TraceSolver) takes every step the            *)
(* implementation took and collects the labels of the broken guards.           *)
EXTENDS Logic, Dimacs

NONE == -1

(* s.n      variables (1..n);  s.big  too many variables for truth tables                     *)
(* s.orig   clauses added by the user;  s.mods  the assignments satisfying them (small only)  *)
(* s.db     clauses stored by the solver: id -> [c |-> literals, x |-> added by the user]     *)
(* s.trail  assigned literals in order;  s.tr  the same as a set                              *)
(* s.reason literal -> id of the clause that implied it, NONE for decisions                   *)
(* s.done   propagated literals;  s.asm  assumptions in force (API);  s.locked  (observed)    *)
(* s.gone   literals retracted by the retraction in progress, with the clause that had        *)
(*          implied them ({} for decisions);  s.dirty  clauses were removed or shortened      *)
(* s.roots  literals reported as holding at level 0;  s.learned  learned since the last call  *)
(* s.pf     lines of the proof being printed: name -> clause;  s.vars  variable count shown last *)
(* s.up     unsatisfiability shows by unit propagation over the stored clauses                 *)
(* s.file   what the file being read says                                                      *)
(* s.lev    levels of the assigned literals as announced: by assignment, or by a change of level *)
(* s.wat    watches announced: clause -> (watched literal -> blocking literal)                  *)
(* s.phase  variable -> literal it was last synchronized to (false before), where that is known *)
(* s.wt     weights of the variables (1 by default);  s.ctx  the call in progress               *)
(* s.run    literals retracted by the repair in progress, as in s.gone;  s.old  the trail when it began  *)
(* s.owe    the last repair was not a cheapest one, which is right only if nothing is learned from it *)
(* s.model  last model;  s.base  the assignments satisfying the clauses that do not block a   *)
(*          model;  s.seen  the models blocked, over variables 1..s.lim                       *)
Init0(n, big) ==
  [n |-> n, big |-> big, orig |-> {}, mods |-> IF big THEN {} ELSE Assignments(n), prev |-> {},
   db |-> <<>>, trail |-> <<>>, tr |-> {}, reason |-> <<>>, done |-> {}, asm |-> {}, locked |-> {},
   gone |-> {}, run |-> {}, old |-> <<>>, owe |-> FALSE, dirty |-> FALSE, lev |-> <<>>, wat |-> <<>>, phase |-> [v \in 1..n |-> -v], wt |-> [v \in 1..n |-> 1], ctx |-> "", roots |-> {}, learned |-> 0, repairs |-> 0,
   model |-> {}, base |-> IF big THEN {} ELSE Assignments(n), seen |-> {}, lim |-> 0, blocking |-> FALSE, exact |-> ~big, pf |-> <<>>, vars |-> 1, up |-> FALSE, file |-> <<>>]

Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Lits(s, id) == s.db[id].c
Clauses(s) == {s.db[id].c : id \in DOMAIN s.db}
L(cond, name) == IF cond THEN {} ELSE {name}

\* is the clause c a consequence of the clauses the user added?
Consequence(s, c) == IF s.big THEN RUP(Clauses(s) \cup s.orig, c) ELSE Entails(s.mods, c)
\* can the added clauses be satisfied together with the literals A? (small only)
Possible(s, A) == FilterLits(s.mods, A) # {}

---------------------------------------------------------------------------
(* Clause set *)

\* the user adds the clause c
EAdd(s, c) == [s EXCEPT !.orig = @ \cup {c}, !.prev = s.mods, !.mods = IF s.big THEN {} ELSE Filter(@, c),
                        !.base = IF s.big \/ s.blocking THEN @ ELSE Filter(@, c), !.blocking = FALSE]

\* the next clause the user adds excludes the last model, over the variables 1..lim (or only its decisions)
EBlock(s, lim, decisions) ==
  [s EXCEPT !.blocking = TRUE, !.lim = lim, !.exact = @ /\ ~decisions /\ (s.seen = {} \/ s.lim = lim),
            !.seen = IF s.big THEN @ ELSE @ \cup {ToAssignment(lim, s.model)}]
\* enumeration: no model comes twice, and none is left when the solver gives up
Project(M, lim) == {m % (2 ^ lim) : m \in M}
GEnum(s, st, m) ==
  IF ~s.exact \/ s.seen = {} THEN {}
  ELSE IF st = "SAT" THEN L(ToAssignment(s.lim, Range(m)) \notin s.seen, "model-repeated")
  ELSE IF st = "UNSAT" /\ s.asm = {} THEN L(Project(s.base, s.lim) \subseteq s.seen, "models-missed")
  ELSE {}

\* the solver stores the clause c under id
GStore(s, id, c, external) ==
  L(id \notin DOMAIN s.db, "id-reused")
  \cup L(external \/ Consequence(s, c), "learned-not-implied")
  \cup L(~external \/ s.big \/ Entails(s.mods, c), "stored-not-implied")
EStore(s, id, c, external) ==
  [s EXCEPT !.db = Put(@, id, [c |-> c, x |-> external]), !.learned = IF external THEN @ ELSE @ + 1]

\* the call that adds the clause c returns; the clause is kept under id, or dropped (id = NONE)
Kept(s, id) == IF id \in DOMAIN s.db THEN Lits(s, id) ELSE {}
GAdded(s, id, c, status) ==
  IF s.big THEN {}
  ELSE IF status = "UNSAT" /\ s.asm = {} THEN L(s.mods = {}, "unsat-wrong")
  ELSE IF id = NONE THEN L(s.mods = s.prev, "clause-lost")
  ELSE IF id \notin DOMAIN s.db THEN L(s.mods = {}, "clause-lost")
  ELSE L({m \in s.prev : ClauseSat(m, Kept(s, id))} = s.mods, "clause-changed")

\* clause id is deleted / loses the literal l
GDelete(s, id) ==
  L(id \in DOMAIN s.db, "delete-unknown")
  \cup L(\A l \in s.tr : s.reason[l] # id, "reason-deleted")
EDelete(s, id) == [s EXCEPT !.db = Del(@, id), !.wat = Del(@, id), !.dirty = TRUE]
GShrink(s, id, l) ==
  IF id \notin DOMAIN s.db THEN {"shrink-unknown"}
  ELSE L(l \in Lits(s, id), "shrink-unknown") \cup L(Consequence(s, Lits(s, id) \ {l}), "shrunk-not-implied")
EShrink(s, id, l) ==
  IF id \notin DOMAIN s.db THEN s
  ELSE [s EXCEPT !.db = Put(@, id, [c |-> Lits(s, id) \ {l}, x |-> s.db[id].x]), !.dirty = TRUE]
\* what is stored still says exactly what was added
GKeepsMeaning(s) == L(s.big \/ ~s.dirty \/ FilterAll(Assignments(s.n), Clauses(s)) = s.mods, "constraints-lost")

---------------------------------------------------------------------------
(* Trail *)

\* clause c implies l under the current assignment: all its other literals are false
Implies(s, c, l) == l \in c /\ \A x \in c \ {l} : -x \in s.tr
Unassigned(s, l) == l \notin s.tr /\ -l \notin s.tr

GAssign(s, l, id) ==
  L(Unassigned(s, l), "assigned-twice")
  \cup (IF id = NONE THEN {} ELSE L(id \in DOMAIN s.db /\ Implies(s, Kept(s, id), l), "implied-without-reason"))
\* the level an assignment stands for: a new level for a decision, the highest one of the reason otherwise
Announced(s, l, id) ==
  IF id = NONE THEN 1 + Cardinality({x \in s.tr : s.reason[x] = NONE})
  ELSE Max0({s.lev[-x] : x \in {y \in Kept(s, id) \ {l} : -y \in s.tr}})
EAssign(s, l, id) ==
  [s EXCEPT !.trail = Append(@, l), !.tr = @ \cup {l}, !.reason = Put(@, l, id), !.lev = Put(@, l, Announced(s, l, id))]
GLevel(s, l) == L(l \in s.tr, "level-of-unassigned")
ELevel(s, l, v) == IF l \in s.tr THEN [s EXCEPT !.lev = Put(@, l, v)] ELSE s

\* a literal of the trail gets another reason (NONE: it becomes an assumption)
GReason(s, l, id) ==
  L(l \in s.tr, "reason-of-unassigned")
  \cup (IF id = NONE THEN {} ELSE L(id \in DOMAIN s.db /\ Implies(s, Kept(s, id), l), "implied-without-reason"))
EReason(s, l, id) == [s EXCEPT !.reason = Put(@, l, id)]

GPropagated(s, l) == L(l \in s.tr, "propagated-unassigned")
EPropagated(s, l) == [s EXCEPT !.done = @ \cup {l}]
EUnpropagated(s, l) == [s EXCEPT !.done = @ \ {l}]

\* one literal is retracted; the literals retracted together are judged by GRetracted
GUnassign(s, l) == L(l \in s.tr, "unassign-unassigned")
EUnassign(s, l) ==
  IF l \notin s.tr THEN s ELSE
  [s EXCEPT !.trail = SelectSeq(@, LAMBDA x : x # l), !.tr = @ \ {l}, !.phase = [v \in {w \in DOMAIN @ : -@[w] \notin s.tr} |-> @[v]], !.reason = Del(@, l), !.lev = Del(@, l), !.done = @ \ {l},
            !.gone = @ \cup {<<l, IF s.reason[l] = NONE THEN {} ELSE Kept(s, s.reason[l])>>},
            !.run = @ \cup {<<l, IF s.reason[l] = NONE THEN {} ELSE Kept(s, s.reason[l])>>}, !.old = IF s.run = {} THEN s.trail ELSE @]
\* every retracted implied literal rested on a retracted literal, or was assigned again at once;
\* neither assumptions nor literals that hold at level 0 are retracted
GRetracted(s) ==
  IF s.gone = {} THEN {} ELSE
  LET g == {p[1] : p \in s.gone}
      lost == {p \in s.gone : p[1] \notin s.tr}
  IN L(\A p \in lost : p[2] = {} \/ \E x \in p[2] \ {p[1]} : -x \in g, "undone-without-cause")
     \cup L(\A p \in lost : p[1] \notin s.locked, "assumption-undone")
     \cup L(\A p \in lost : p[1] \notin s.roots, "root-undone")
RECURSIVE Weights(_, _)
Weights(s, S) == IF S = {} THEN 0 ELSE LET l == CHOOSE x \in S : TRUE IN s.wt[Var(l)] + Weights(s, S \ {l})
\* Graph backtracking: a repair undoes decisions (and what rests on them) such that every conflict it is for is resolved
\* and none of them is undone for nothing.  Among these choices it takes a cheapest one; only when nothing can be
\* learned it may have to take a cheapest one with the latest decision any of them could undo.
RestsOn(s) ==      \* literal -> decisions it rests on, before the repair; <<>> if the trail is not in implication order
  LET why == [l \in Range(s.old) |-> IF l \in s.tr THEN (IF s.reason[l] = NONE THEN {} ELSE Kept(s, s.reason[l])) ELSE (CHOOSE p \in s.run : p[1] = l)[2]]
      RECURSIVE On(_, _)
      On(i, f) == IF i > Len(s.old) THEN f
                  ELSE LET l == s.old[i] IN
                       IF why[l] = {} THEN On(i + 1, Put(f, l, {l}))
                       ELSE IF \E x \in why[l] \ {l} : -x \notin DOMAIN f THEN <<>>
                       ELSE On(i + 1, Put(f, l, UNION {f[-x] : x \in why[l] \ {l}}))
  IN On(1, <<>>)
Hits(D, C) == \A c \in C : D \cap c # {}
MinimalHits(C) == {D \in SUBSET UNION C : Hits(D, C) /\ \A d \in D : ~Hits(D \ {d}, C)}
Repair(s, f) ==    \* conflicts before the repair, as the sets of decisions that could be undone;  what was undone
  [c |-> {(UNION {f[-x] : x \in Lits(s, id)}) \ s.locked : id \in {i \in DOMAIN s.db : \A x \in Lits(s, i) : -x \in Range(s.old)}},
   d |-> {p[1] : p \in {q \in s.run : q[2] = {}}}]
Price(s, f, D) == Weights(s, {l \in DOMAIN f : f[l] \cap D # {}})
\* is D a cheapest choice for some of the conflicts C (latest: among those with the latest decision)?
Cheapest(s, f, C, D, latest) ==
  \E F \in SUBSET C \ {{}} :
    LET M == MinimalHits(F)
        pos(d) == CHOOSE i \in 1..Len(s.old) : s.old[i] = d
        last == CHOOSE d \in UNION M : \A x \in UNION M : pos(x) <= pos(d)
    IN D \in M /\ (~latest \/ last \in D) /\ \A m \in M : (latest /\ last \notin m) \/ Price(s, f, D) <= Price(s, f, m)
Judged(s, f) == LET r == Repair(s, f) IN f # <<>> /\ Cardinality(r.c) <= 4 /\ Cardinality(UNION r.c) <= 7 /\ {} \notin r.c
GRepair(s, exact) ==
  IF s.run = {} THEN {} ELSE
  LET f == RestsOn(s)
      r == Repair(s, f)
  IN IF f = <<>> THEN {}
     ELSE L(\A d \in r.d : \E c \in r.c : c \cap r.d = {d}, "repair-not-minimal")
          \cup L(~exact \/ ~Judged(s, f) \/ Cheapest(s, f, r.c, r.d, FALSE) \/ Cheapest(s, f, r.c, r.d, TRUE), "repair-not-cheapest")
ERepair(s, exact) ==
  IF s.run = {} THEN s ELSE
  LET f == RestsOn(s)
      r == Repair(s, f)
  IN [s EXCEPT !.run = {}, !.old = <<>>, !.owe = exact /\ f # <<>> /\ Judged(s, f) /\ ~Cheapest(s, f, r.c, r.d, FALSE)]
\* something was learned from the last repair
GTeaches(s, external) == L(external \/ ~s.owe, "repair-not-cheapest")
ERetracted(s) == IF s.gone = {} THEN s ELSE [s EXCEPT !.gone = {}, !.repairs = @ + 1]

GLock(s, l) == L(l \in s.tr, "lock-unassigned")
ELock(s, l) == [s EXCEPT !.locked = @ \cup {l}]
EUnlock(s, l) == [s EXCEPT !.locked = @ \ {l}]

\* literals derivable from the literals D through the reasons
RECURSIVE Derived(_, _)
Derived(s, D) ==
  LET more == {l \in s.tr \ D : s.reason[l] # NONE /\ \A x \in Kept(s, s.reason[l]) \ {l} : -x \in D}
  IN IF more = {} THEN D ELSE Derived(s, D \cup more)
Decisions(s) == {l \in s.tr : s.reason[l] = NONE}

\* everything that follows by unit propagation is assigned
GProp(s) == \A c \in Clauses(s) : c \cap s.tr # {} \/ Cardinality({x \in c : -x \notin s.tr}) >= 2

\* Synchronizing notes the values shown; it costs the weights of the variables whose value has changed since (k: what it
\* cost, -1 unknown).  A conflict synchronizes too, at a moment that is not observed.  Decisions of the solver keep the phase.
GSync(s, k) ==
  L(k = -1 \/ (\E l \in s.tr : Var(l) \notin DOMAIN s.phase)
    \/ k = Weights(s, {l \in s.tr : s.phase[Var(l)] # l}), "sync-cost-wrong")
ESync(s) == [s EXCEPT !.phase = [v \in DOMAIN @ \cup {Var(l) : l \in s.tr} |-> IF v \in s.tr THEN v ELSE IF -v \in s.tr THEN -v ELSE @[v]]]
GPhase(s, l, id) == L(id # NONE \/ s.ctx # "call" \/ Var(l) \notin DOMAIN s.phase \/ s.phase[Var(l)] = l, "phase-wrong")

\* The assignment t is listed so that every literal comes after those that implied it, decisions in the order of their
\* levels, and (plain: non-chronological backtracking) level after level
GOrder(s, t, v, plain) ==
  IF Range(t) # s.tr THEN {} ELSE
  LET pos == [l \in s.tr |-> CHOOSE i \in 1..Len(t) : t[i] = l]
      dec == SelectSeq(t, LAMBDA l : s.reason[l] = NONE)
  IN L(\A l \in s.tr : s.reason[l] = NONE \/ \A x \in Kept(s, s.reason[l]) \ {l} : -x \in s.tr => pos[-x] < pos[l], "order-wrong")
     \cup (IF Len(v) # Len(t) THEN {} ELSE
            L(\A i \in 1..Len(dec) : v[pos[dec[i]]] = i, "order-wrong")
            \cup L(~plain \/ \A i \in 2..Len(t) : v[i - 1] <= v[i], "order-wrong"))

---------------------------------------------------------------------------
(* Watched literals *)

EWatch(s, id, l) == IF id \in DOMAIN s.wat THEN [s EXCEPT !.wat[id] = Put(@, l, 0)] ELSE [s EXCEPT !.wat = Put(@, id, [x \in {l} |-> 0])]
GWatch(s, id, l) == L(id \in DOMAIN s.db /\ l \in Kept(s, id), "watch-unknown")
GUnwatch(s, id, l) == L(id \in DOMAIN s.wat /\ l \in DOMAIN s.wat[id], "watch-unknown")
EUnwatch(s, id, l) == IF id \in DOMAIN s.wat THEN [s EXCEPT !.wat[id] = Del(@, l)] ELSE s
GBlocker(s, id, b, l) == L(id \in DOMAIN s.wat /\ l \in DOMAIN s.wat[id] /\ b \in Kept(s, id) \ {l}, "watch-unknown")
EBlocker(s, id, b, l) == IF id \in DOMAIN s.wat /\ l \in DOMAIN s.wat[id] THEN [s EXCEPT !.wat[id][l] = b] ELSE s
\* every clause of two or more literals is watched by two of them, each with another literal as its blocker; when a watched
\* literal is false, another literal of the clause makes up for it (strategy: ncb, cb, or else)
GWatched(s, t, lev, strategy) ==
  LET pos == [l \in s.tr |-> CHOOSE i \in 1..Len(t) : t[i] = l]
      \* literals behind the decision of a level that is undone are propagated again
      again(x, b) == \E d \in s.tr : s.reason[d] = NONE /\ lev[d] = lev[b] /\ pos[d] < pos[-x]
      lv(x) == lev[IF x \in s.tr THEN x ELSE -x]
      good(id) ==
        /\ id \in DOMAIN s.wat
        /\ LET W == DOMAIN s.wat[id] IN
           /\ W \subseteq Lits(s, id) /\ Cardinality(W) = 2
           /\ \A c \in W : LET b == s.wat[id][c]
                               o == CHOOSE x \in W : x # c
                          IN /\ b \in Lits(s, id) \ {c}
                             /\ -c \in s.done =>
                                  IF strategy = "ncb" THEN (o \in s.tr /\ lv(o) <= lv(c)) \/ (b \in s.tr /\ lv(b) <= lv(c))
                                  ELSE IF strategy = "cb" THEN -o \notin s.done \/ (b \in s.tr /\ (lv(b) <= MaxOf({lv(c), lv(o)}) \/ again(c, b) \/ again(o, b)))
                                  ELSE o \in s.tr \/ b \in s.tr
  IN L(\A id \in DOMAIN s.db : Cardinality(Lits(s, id)) < 2 \/ good(id), "watch-broken")

---------------------------------------------------------------------------
\* Quiescence: the solver has propagated everything and shows its trail t with the levels v
GQuiet(s, t, v, d) ==
  LET dec == Decisions(s)
      root == Derived(s, {})
      lev == [i \in 1..Len(t) |-> v[i]]
      lv == [l \in s.tr |-> IF l \in Range(t) THEN v[CHOOSE i \in 1..Len(t) : t[i] = l] ELSE -1]
  IN L(t = s.trail, "trail-differs")
     \cup L(Range(d) = dec, "decision-differs")
     \cup L(Len(v) # Len(t) \/ Range(t) # s.tr \/ lv = s.lev, "level-notice-wrong")
     \cup L(GProp(s), "missed-propagation")
     \cup L(Derived(s, dec) = s.tr, "unjustified-literal")
     \cup L(s.tr \ s.done = {}, "unpropagated-literal")
     \cup (IF t # s.trail \/ Len(v) # Len(t) THEN {} ELSE
            L({l \in s.tr : lv[l] = 0} = root, "root-level-wrong")
            \cup L({lv[l] : l \in dec} = 1 .. Cardinality(dec), "decision-level-wrong")
            \cup L(\A l \in s.tr \ dec : lv[l] = Max0({lv[-x] : x \in {y \in Kept(s, s.reason[l]) \ {l} : -y \in s.tr}}), "implied-level-wrong"))
     \cup L(\A l \in root : Consequence(s, {l}), "root-not-implied")
     \cup L(s.roots \subseteq s.tr, "root-undone")
     \cup GKeepsMeaning(s)
EQuiet(s, t, v) == [s EXCEPT !.dirty = FALSE,
                             !.roots = @ \cup {t[i] : i \in {j \in 1..Len(t) : j <= Len(v) /\ v[j] = 0}}]

---------------------------------------------------------------------------
(* Answers *)

\* m: the values the solver reports;  t: the assignment it shows;  rt: the literals it says hold at level 0
GSat(s, m, iuv) ==
  LET M == Range(m) IN
  L(\A l \in M : -l \notin M, "model-inconsistent")
  \cup L(iuv \/ \A c \in s.orig : \A l \in c : l \in M \/ -l \in M, "model-partial")
  \cup L(\A c \in s.orig : c \cap M # {}, "sat-wrong")
  \cup L(s.asm \subseteq M, "assumption-violated")
GUnsat(s) ==
  IF s.big THEN L(s.asm # {} \/ ~s.up \/ UPConflict(Clauses(s) \cup s.orig, {}), "unsat-wrong")
  ELSE L(~Possible(s, s.asm), "unsat-wrong")
GReport(s, m, t, rt) ==
  L(Range(m) = Range(t) /\ Cardinality(Range(t)) = Len(t) /\ \A l \in Range(t) : -l \notin Range(t), "assignment-inconsistent")
  \cup L(\A l \in Range(rt) : Consequence(s, {l}), "root-not-implied")
  \cup L(s.roots \subseteq Range(m), "root-undone")
GAnswer(s, st, m, t, rt, iuv) ==
  (IF st = "SAT" THEN GSat(s, m, iuv) ELSE IF st = "UNSAT" THEN GUnsat(s) ELSE {}) \cup GReport(s, m, t, rt)
EAnswer(s, st, m, rt) == [s EXCEPT !.roots = @ \cup Range(rt), !.phase = IF st = "UNSAT" THEN <<>> ELSE @, !.learned = 0, !.repairs = 0,
                                   !.model = IF st = "SAT" THEN Range(m) ELSE {}]
\* a call limited to k conflicts: it may only give up after that many, and does not go on after them
\* (single: one conflict at a time, ncb: each of them teaches one clause)
GLimit(s, st, k, traced, single, ncb) ==
  L(~traced \/ st # "UNKNOWN" \/ s.repairs + s.learned > 0, "gave-up-early")
  \cup L(~traced \/ ~ncb \/ st # "UNKNOWN" \/ s.learned > k, "gave-up-early")
  \cup L(~traced \/ ~single \/ s.learned <= k + 1, "limit-exceeded")
ECall(s) == [s EXCEPT !.learned = 0, !.repairs = 0]

---------------------------------------------------------------------------
(* Assumptions *)

GAssume(s, l, ok, shown) ==
  IF ok THEN L(-l \notin s.asm, "assume-contradictory") \cup L(~shown \/ l \in s.tr, "assume-not-assigned")
  ELSE L(s.big \/ ~Possible(s, s.asm \cup {l}), "assume-refused")
EAssume(s, l, ok) == IF ok THEN [s EXCEPT !.asm = @ \cup {l}] ELSE s
GForget(s, l, ok) ==
  IF ok THEN L(l \in s.asm, "forget-wrong")
  ELSE L(l \notin s.asm \/ Consequence(s, {l}), "forget-refused")
EForget(s, l) == [s EXCEPT !.asm = @ \ {l}]
EForgetAll(s) == [s EXCEPT !.asm = {}]
\* the literals K are said to make the added clauses unsatisfiable
GCore(s, K) == L(K \subseteq s.asm, "core-not-assumed") \cup L(s.big \/ ~Possible(s, K), "core-satisfiable")
---------------------------------------------------------------------------
(* Interactive mode.  Commands stand for the calls of the same meaning; what cannot be done is refused. *)

\* the solver asks before it decides, and before it gives up because of the assumptions (the call in progress is "call" until
\* the first question, and "asked" between two questions; a decision that is retracted and kept is not asked for again)
GAskedDecide(s, l, id) == L(id # NONE \/ (\E p \in s.gone : p[1] = l) \/ s.ctx \notin {"call", "asked"}, "not-asked")
GAskedFailure(s, r, last) == L(r # "UNSAT" \/ s.locked = {} \/ last \in {"call", "cmd", "taught", "assume", "forget", "udecide"}, "not-asked")

\* DECIDE l was carried out (ok), or refused because l has a value (known: the assignment is observed)
GDecided(s, l, ok, known) ==
  L(~known \/ (IF ok THEN l \in s.tr /\ s.reason[l] = NONE ELSE ~Unassigned(s, l)), "command-wrong")
\* LEARN takes a clause of any length
GTaught(s, ok, status) == L(ok, "command-wrong") \cup L(s.big \/ status # "UNSAT" \/ ~Possible(s, s.asm), "unsat-wrong")
\* any other command w with k arguments: unknown, with too few or too many of them, or with one that is no literal of an existing
\* variable (LEARN: no literal); all of these are refused.  Printing takes anything, and prints nothing it does not know
GCommand(s, w, k, ok) ==
  L(ok <=> \/ w \in {"", "HELP"} \/ (w = "DECIDE" /\ k = 0) \/ (w = "PRINT" /\ k \in 0..9), "command-wrong")
---------------------------------------------------------------------------
(* Printed proofs: a line is a clause of the user or resolves two earlier lines *)

GProofLine(s, name, c, a, b) ==
  L(name \notin DOMAIN s.pf, "proof-step-wrong")
  \cup (IF a = "" THEN L(c \in s.orig, "proof-leaf-wrong")
        ELSE L(a \in DOMAIN s.pf /\ b \in DOMAIN s.pf /\ c \in Resolvents(s.pf[a], s.pf[b]), "proof-step-wrong"))
EProofLine(s, name, c) == [s EXCEPT !.pf = Put(@, name, c)]
GProofEnd(s) == L({} \in Range(s.pf), "proof-incomplete")
EProofEnd(s) == [s EXCEPT !.pf = <<>>]

---------------------------------------------------------------------------
(* Files: reading one adds the clauses written in it.  none: it cannot be read *)

EParse(s, f, none, before, aliases) ==
  LET r == DimFile(f, aliases)
      cs == Range(r.cls)
  IN [s EXCEPT !.orig = @ \cup cs, !.mods = IF s.big THEN {} ELSE FilterAll(@, cs), !.base = IF s.big THEN {} ELSE FilterAll(@, cs),
               !.file = [none |-> none, ok |-> r.ok, n |-> DimMax({before - 1, r.n})]]
\* an error behind clauses that are unsatisfiable need not be noticed
GParsed(s, ok, vc, st) ==
  LET found == IF s.big THEN st = "UNSAT" ELSE s.mods = {} IN
  IF ok THEN L(~s.file.none /\ (s.file.ok \/ found), "file-accepted")
             \cup L(vc = s.file.n + 1 \/ (found /\ vc <= s.file.n + 1), "variable-count-wrong")
  ELSE L(s.file.none \/ ~s.file.ok, "file-refused")
\* what the command-line tool prints: exit code, answer, number of models found
GTool(s, code, ans, models, all, limited) ==
  IF limited /\ code = 0 /\ ans = "UNKNOWN" /\ s.file.ok /\ ~s.file.none THEN {}
  ELSE IF s.file.none THEN L(code = 1 /\ ans = "", "file-accepted")
  ELSE IF ~s.file.ok THEN L((code = 1 /\ ans = "") \/ s.mods = {}, "file-accepted")
  ELSE L(code = 0 /\ ans # "", "file-refused")
       \cup L(code # 0 \/ ans = IF ~all /\ s.mods # {} THEN "SAT" ELSE "UNSAT", "answer-wrong")
       \cup L(code # 0 \/ ~all \/ models = Cardinality(s.mods), "models-wrong")
---------------------------------------------------------------------------
(* Variables.  The count shown to the user includes the unused variable 0. *)

GNewVar(s, v, before, after) == L(v = before /\ after = before + 1, "variable-count-wrong") \cup L(before >= s.vars, "variable-count-wrong")
\* the rest of a file may be skipped once the clauses read are contradictory
GCount(s, vc) == L(vc >= s.vars /\ ((DOMAIN s.file # {} /\ (s.big \/ s.mods = {})) \/ \A c \in s.orig : \A l \in c : Var(l) < vc), "variable-count-wrong")
ECount(s, vc) == [s EXCEPT !.vars = vc]
=============================================================================
