------------------------------ MODULE MCSolver ------------------------------
(* Design model: the machine of Solver.tla, taking every step whose guard set  *)
(* is empty, explored exhaustively on all small clause sets and histories.     *)
(* FreeSpec allows any order of legal steps (safety of the guards);            *)
(* SearchSpec follows the discipline of a search loop (it always ends).        *)
EXTENDS Solver

CONSTANTS N,         \* variables
          MaxAdd,    \* clauses the user adds
          MaxDb,     \* clauses stored at the same time
          MaxSize,   \* literals per added clause
          MaxAsm     \* assumptions in force at the same time
VARIABLES s, st
vars == <<s, st>>

LitSet == {l \in -N .. N : l # 0}
Universe == {c \in SUBSET LitSet : c # {} /\ ~Tautology(c) /\ Cardinality(c) <= MaxSize}
Ids == 0 .. MaxDb - 1
Fresh(t) == CHOOSE id \in Ids \ DOMAIN t.db : \A j \in Ids \ DOMAIN t.db : id <= j
Room(t) == Cardinality(DOMAIN t.db) < MaxDb
Conflict(t) == {id \in DOMAIN t.db : \A x \in Lits(t, id) : -x \in t.tr}
\* level of each literal: the number of leading decisions it needs
DecSeq(t) == SelectSeq(t.trail, LAMBDA l : t.reason[l] = NONE)
LevelOf(t, l) == LET d == DecSeq(t) IN CHOOSE k \in 0 .. Len(d) :
                   /\ l \in Derived(t, {d[i] : i \in 1..k})
                   /\ k = 0 \/ l \notin Derived(t, {d[i] : i \in 1..(k-1)})
Levels(t) == [i \in 1..Len(t.trail) |-> LevelOf(t, t.trail[i])]

\* history that the model does not need; levels are renumbered when decisions go
Trim(t) == [t EXCEPT !.learned = 0, !.repairs = 0, !.run = {}, !.old = <<>>, !.owe = FALSE, !.prev = {}, !.dirty = FALSE, !.done = t.tr, !.base = {}, !.exact = FALSE, !.phase = <<>>, !.wt = <<>>,
                     !.lev = [l \in t.tr |-> LevelOf(t, l)]]

RECURSIVE UnassignAll(_, _)
UnassignAll(t, g) == IF g = {} THEN t ELSE LET l == CHOOSE x \in g : TRUE IN UnassignAll(EUnassign(t, l), g \ {l})
\* keep what can still be derived from the decisions K
Keep(t, K) == UnassignAll(t, t.tr \ Derived(t, K))

Init == s = Trim(Init0(N, FALSE)) /\ st = "UNKNOWN"

Add(c) == /\ Cardinality(s.orig) < MaxAdd /\ Room(s) /\ c \notin s.orig
          /\ st \in {"UNKNOWN", "SAT"}
          /\ LET t == EAdd(s, c) IN
             /\ GStore(t, Fresh(t), c, TRUE) = {}
             /\ GAdded(EStore(t, Fresh(t), c, TRUE), Fresh(t), c, "UNKNOWN") = {}
             /\ s' = Trim(EStore(t, Fresh(t), c, TRUE))
          /\ st' = "UNKNOWN"
Imply(l, id) == /\ st = "UNKNOWN" /\ GAssign(s, l, id) = {}
                /\ s' = Trim(EAssign(s, l, id)) /\ UNCHANGED st
Decide(l) == /\ st = "UNKNOWN" /\ Unassigned(s, l) /\ GProp(s) /\ GQuiet(s, s.trail, Levels(s), DecSeq(s)) = {}
             /\ s' = Trim(EAssign(EQuiet(s, s.trail, Levels(s)), l, NONE)) /\ UNCHANGED st
\* a decision turns out to be implied
Reimply(l, id) == /\ st = "UNKNOWN" /\ l \in s.tr /\ s.reason[l] = NONE /\ l \notin s.locked /\ GReason(s, l, id) = {}
                  /\ LET t == EReason(s, l, id) IN Derived(t, Decisions(t)) = t.tr /\ s' = Trim(t)
                  /\ UNCHANGED st
Retract(D) == /\ st # "UNSAT" /\ D # {} /\ D \subseteq Decisions(s)
              /\ LET t == Keep(s, Decisions(s) \ D) IN GRetracted(t) = {} /\ s' = Trim(ERetracted(t))
              /\ st' = "UNKNOWN"
Learn(c) == /\ st = "UNKNOWN" /\ Room(s) /\ c \notin Clauses(s) /\ GStore(s, Fresh(s), c, FALSE) = {}
            /\ s' = Trim(EStore(s, Fresh(s), c, FALSE)) /\ UNCHANGED st
Delete(id) == /\ st = "UNKNOWN" /\ GDelete(s, id) = {} /\ GKeepsMeaning(EDelete(s, id)) = {}
              /\ s' = Trim(EDelete(s, id)) /\ UNCHANGED st
Shrink(id, l) == /\ st = "UNKNOWN" /\ \A x \in s.tr : s.reason[x] # id
                 /\ Cardinality(Lits(s, id)) > 1 /\ -l \in Derived(s, {}) /\ GShrink(s, id, l) = {}
                 /\ s' = Trim(EShrink(s, id, l)) /\ UNCHANGED st
AnswerSat == /\ st = "UNKNOWN" /\ Conflict(s) = {} /\ Cardinality(s.tr) = N
             /\ GAnswer(s, "SAT", s.trail, s.trail, <<>>, FALSE) = {}
             /\ st' = "SAT" /\ UNCHANGED s
\* the search fails: what is left under the assumptions alone is conflicting
AnswerUnsat == /\ st = "UNKNOWN" /\ Conflict(s) # {} /\ Decisions(s) \subseteq s.asm
               /\ GAnswer(s, "UNSAT", s.trail, s.trail, <<>>, FALSE) = {}
               /\ st' = "UNSAT" /\ UNCHANGED s
Assume(l) == /\ Cardinality(s.asm) < MaxAsm /\ st # "UNSAT" /\ Unassigned(s, l) /\ GProp(s) /\ GAssume(s, l, TRUE, FALSE) = {}
             /\ s' = Trim(ELock(EAssign(EAssume(s, l, TRUE), l, NONE), l))
             /\ st' = "UNKNOWN"
\* an assumption is dropped: what rests on it goes
Forget(l) == /\ l \in s.asm
             /\ LET u == EUnlock(EForget(s, l), l)
                    t == Keep(u, Decisions(u) \ {l}) IN GRetracted(t) = {} /\ s' = Trim(ERetracted(t))
             /\ st' = IF st = "UNSAT" /\ s.mods = {} THEN "UNSAT" ELSE "UNKNOWN"

Free == \/ \E c \in Universe : Add(c)
        \/ \E l \in LitSet : Decide(l) \/ Assume(l) \/ Forget(l)
        \/ \E l \in LitSet, id \in DOMAIN s.db : Imply(l, id) \/ Reimply(l, id) \/ Shrink(id, l)
        \/ \E D \in SUBSET (Decisions(s) \ s.asm) : Retract(D)
        \/ \E a, b \in DOMAIN s.db : \E c \in Resolvents(Lits(s, a), Lits(s, b)) : ~Tautology(c) /\ c # {} /\ Learn(c)
        \/ \E id \in DOMAIN s.db : Delete(id)
        \/ AnswerSat \/ AnswerUnsat
FreeSpec == Init /\ [][Free]_vars

---------------------------------------------------------------------------
(* Search discipline: propagate first; answer or decide when nothing is left;  *)
(* on a conflict learn the clause saying that its decisions exclude each other *)
(* and retract the last of them (an asserting clause implies its negation).    *)
Units == {p \in LitSet \X DOMAIN s.db : Unassigned(s, p[1]) /\ Implies(s, Lits(s, p[2]), p[1])}
SInit == /\ \E F \in SUBSET Universe :
              /\ Cardinality(F) <= MaxAdd
              /\ LET RECURSIVE Load(_, _)
                     Load(t, cs) == IF cs = {} THEN t ELSE LET c == CHOOSE x \in cs : TRUE
                                    IN Load(EStore(EAdd(t, c), Cardinality(DOMAIN t.db), c, TRUE), cs \ {c})
                 IN s = Trim(Load(Init0(N, FALSE), F))
         /\ st = "UNKNOWN"
NextId(t) == IF DOMAIN t.db = {} THEN 0 ELSE MaxOf(DOMAIN t.db) + 1
SImply == /\ st = "UNKNOWN" /\ Conflict(s) = {} /\ \E p \in Units : Imply(p[1], p[2])
SDecide == st = "UNKNOWN" /\ Conflict(s) = {} /\ Units = {} /\ \E l \in LitSet : Decide(l)
\* the decisions a literal rests on
Roots(t, l) == {d \in Decisions(t) : l \notin Derived(t, Decisions(t) \ {d})}
SRepair == /\ st = "UNKNOWN" /\ Conflict(s) # {} /\ Decisions(s) # {}
           /\ \E id \in Conflict(s) :
                LET D == UNION {Roots(s, -x) : x \in Lits(s, id)}
                    c == Neg(D)
                IN /\ D # {}
                   /\ GStore(s, NextId(s), c, FALSE) = {}
                   /\ \E d \in {x \in D : \A y \in D : LevelOf(s, y) <= LevelOf(s, x)} :
                        LET t == Keep(EStore(s, NextId(s), c, FALSE), Decisions(s) \ {d})
                        IN GRetracted(t) = {} /\ s' = Trim(ERetracted(t))
           /\ UNCHANGED st
SUnsat == Conflict(s) # {} /\ Decisions(s) = {} /\ AnswerUnsat
SNext == SImply \/ SDecide \/ SRepair \/ SUnsat \/ AnswerSat
SearchSpec == SInit /\ [][SNext]_vars /\ WF_vars(SNext)
Terminates == <>(st \in {"SAT", "UNSAT"})

---------------------------------------------------------------------------
Consistent == \A l \in s.tr : -l \notin s.tr
StoredFollow == \A id \in DOMAIN s.db : Entails(s.mods, Lits(s, id))
Equivalent == FilterAll(Assignments(N), Clauses(s)) = s.mods
\* (SearchSpec) the assignment is listed in implication order
Ordered == GOrder(s, s.trail, Levels(s), FALSE) = {}
\* the level announced by an assignment is the level of the literal
LevelsAnnounced == \A p \in Units : LevelOf(EAssign(s, p[1], p[2]), p[1]) = Announced(s, p[1], p[2])
Justified == Derived(s, Decisions(s)) = s.tr
ReasonsStored == \A l \in s.tr : s.reason[l] # NONE => s.reason[l] \in DOMAIN s.db /\ Implies(s, Lits(s, s.reason[l]), l)
RootsHold == s.roots \subseteq s.tr /\ \A l \in s.roots : Entails(s.mods, {l})
AssumptionsHold == s.asm \subseteq s.tr \/ st = "UNSAT"
SatRight == st = "SAT" => ToAssignment(N, s.tr) \in s.mods /\ s.asm \subseteq s.tr
UnsatRight == st = "UNSAT" => ~Possible(s, s.asm)
\* a search that is not finished can always go on
Progress == st = "UNKNOWN" => ENABLED SNext
=============================================================================
