----------------------------- MODULE TraceSolver -----------------------------
(* Validation of recorded executions of the real solver against Solver.tla.     *)
(* One initial state per recorded scenario, one step per recorded event.        *)
EXTENDS Solver, Json, IOUtils

CONSTANT Watch     \* the guard labels that decide the property being checked

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, s, viol

Flag(r, b) == (r.p \div b) % 2 = 1
Rec == Trace[i]
Set(q) == {q[x] : x \in 1..Len(q)}

\* labels broken by event e in state t;  the retraction in progress ends at the first event of another kind
Burst == {"un", "up", "as", "ur", "ul", "lk", "uk", "pr", "wa", "uw", "bl"}
\* (minimal, exact: what the settings promise about repairs)
Repairing == {"un", "up", "ul"}
Minimal(t) == Flag(Rec, 512) /\ t.ctx \in {"call", "add"}
Exact(t) == Minimal(t) /\ Flag(Rec, 256)
Pre(t, e) == (IF e.e \in Burst THEN {} ELSE GRetracted(t)) \cup (IF e.e \in Repairing \/ ~Minimal(t) THEN {} ELSE GRepair(t, Exact(t)))
Repaired(t, e) == IF e.e \in Repairing THEN [t EXCEPT !.owe = FALSE]
                  ELSE IF t.run # {} THEN ERepair(t, Exact(t))
                  ELSE IF t.owe /\ (e.e \notin Burst \cup {"nc", "dc"} \/ e.e = "pr") THEN [t EXCEPT !.owe = FALSE] ELSE t
Settled(t, e) == LET u == Repaired(t, e) IN IF e.e \in Burst THEN u ELSE ERetracted(u)

\* every literal mentioned is one of the scenario's variables
Mentioned(e) == UNION {Set(e[f]) : f \in {"c", "t", "m", "root"} \cap DOMAIN e} \cup (IF "l" \in DOMAIN e THEN {e.l} ELSE {})
Alien(t, e) == \E x \in Mentioned(e) : x = 0 \/ Var(x) > t.n

\* the kind of the last event among the first x that is no quiet moment
RECURSIVE LastBefore(_)
LastBefore(x) == IF Rec.ev[x].e = "chk" THEN LastBefore(x - 1) ELSE Rec.ev[x].e

GStatus(t, e) ==
  L(~Flag(Rec, 4) \/ (e.t = t.trail /\ Set(e.d) = Decisions(t)), "trail-differs")
  \cup GCount(t, e.vc) \cup GAnswer(t, e.r, e.m, e.t, e.root, Flag(Rec, 2)) \cup GEnum(t, e.r, e.m)
  \cup L(e.r # "SAT" \/ Flag(Rec, 2) \/ {Var(l) : l \in Set(e.m)} = 1 .. (e.vc - 1), "model-partial")

\* everything that follows from the clauses by unit propagation is in T
Propagated(t, T) == IF Flag(Rec, 4) THEN GProp(t) ELSE \A c \in t.orig : c \cap T # {} \/ Cardinality({x \in c : -x \notin T}) >= 2

Strategy == IF Flag(Rec, 16) THEN "ncb" ELSE IF Flag(Rec, 128) THEN "cb" ELSE "other"
Levels(e) == [l \in Set(e.t) |-> e.v[CHOOSE x \in 1..Len(e.t) : e.t[x] = l]]

Guards(t, e) ==
  CASE e.e = "nc"    -> GStore(t, e.id, Set(e.c), e.x = 1) \cup GTeaches(t, e.x = 1)
    [] e.e = "dc"    -> GDelete(t, e.id)
    [] e.e = "sc"    -> GShrink(t, e.id, e.l)
    [] e.e = "as"    -> GAssign(t, e.l, e.r) \cup GPhase(t, e.l, e.r) \cup (IF Flag(Rec, 1024) THEN GAskedDecide(t, e.l, e.r) ELSE {})
    [] e.e = "sync"  -> IF Flag(Rec, 4) THEN GSync(t, e.k) ELSE {}
    [] e.e = "ur"    -> GReason(t, e.l, e.r)
    [] e.e = "un"    -> GUnassign(t, e.l)
    [] e.e = "pr"    -> GPropagated(t, e.l)
    [] e.e = "lk"    -> GLock(t, e.l)
    [] e.e = "chk"   -> GQuiet(t, e.t, e.v, e.d) \cup GOrder(t, e.t, e.v, Flag(Rec, 16)) \cup (IF Flag(Rec, 64) /\ Rec.w = 1 /\ Len(e.v) = Len(e.t) /\ Set(e.t) = t.tr THEN GWatched(t, e.t, Levels(e), Strategy) ELSE {})
    [] e.e = "ul"    -> GLevel(t, e.l)
    \* release builds do not report watches
    [] e.e \in {"wa", "uw", "bl"} /\ Rec.w = 0 -> {}
    [] e.e = "wa"    -> GWatch(t, e.id, e.l)
    [] e.e = "uw"    -> GUnwatch(t, e.id, e.l)
    [] e.e = "bl"    -> GBlocker(t, e.id, e.b, e.l)
    [] e.e = "added" -> IF Flag(Rec, 4) THEN GAdded(t, e.id, Set(e.c), e.s) ELSE {}
    [] e.e = "solve" -> (IF Flag(Rec, 1024) /\ Flag(Rec, 4) THEN GAskedFailure(t, e.r, LastBefore(k)) ELSE {}) \cup GStatus(t, e) \cup L(e.r \in {"SAT", "UNSAT"}, "no-answer")
    [] e.e = "limit" -> GStatus(t, e) \cup GLimit(t, e.r, e.k, Flag(Rec, 4), Flag(Rec, 8), Flag(Rec, 16))
    [] e.e = "prop"  -> GStatus(t, e) \cup L(e.ok = 0 \/ e.r # "UNKNOWN" \/ Propagated(t, Set(e.t)), "missed-propagation")
    [] e.e \in {"autodecide", "status"} -> GStatus(t, e)
    [] e.e = "assume" -> GAssume(t, e.l, e.ok = 1, Flag(Rec, 4))
    [] e.e = "forget" -> GForget(t, e.l, e.ok = 1)
    [] e.e = "udecide" -> GDecided(t, e.l, e.ok = 1, Flag(Rec, 4))
    [] e.e = "taught" -> GTaught(t, e.ok = 1, e.s)
    [] e.e = "cmd"   -> GCommand(t, e.w, e.k, e.ok = 1)
    [] e.e = "core"  -> GCore(t, Set(e.c))
    [] e.e = "newvar" -> GNewVar(t, e.v, e.b, e.a)
    [] e.e = "proof" -> L(e.ok = 1, "proof-rejected")
    [] e.e = "pl"    -> GProofLine(t, e.i, Set(e.c), e.a, e.b)
    [] e.e = "pend"  -> GProofEnd(t)
    [] e.e = "parsed" -> GParsed(t, e.ok = 1, e.vc, e.s)
    [] e.e = "tool"  -> GTool(t, e.code, e.ans, e.models, e.all = 1, e.lim = 1)
    [] e.e = "about" -> L(e.code = 0 /\ e.ans = "", "about-refused")   \* help and version: no file is read
    [] e.e = "agree" -> L(Cardinality(Set(e.r)) = 1, "answers-differ")
    [] e.e = "crash" -> {"crash"}
    [] OTHER -> {}

EFile(t, e) == IF e.e = "parse" THEN EParse(t, e.f, e.no = 1, e.b, e.al = 1) ELSE t

Effect(t, e) ==
  CASE e.e = "add"   -> [EAdd(t, Set(e.c)) EXCEPT !.ctx = "add"]
    [] e.e \in {"begin", "asm", "parse"} -> [EFile(t, e) EXCEPT !.ctx = "other"]
    [] e.e = "cmd"   -> [t EXCEPT !.ctx = "asked"]
    [] e.e = "udecide" -> [t EXCEPT !.ctx = "asked"]
    [] e.e = "sync"  -> ESync(t)
    [] e.e = "added" -> IF e.s = "UNSAT" THEN [t EXCEPT !.phase = <<>>] ELSE t
    [] e.e = "taught" -> [t EXCEPT !.phase = IF e.s = "UNSAT" THEN <<>> ELSE @, !.ctx = "asked"]
    [] e.e = "costs" -> [t EXCEPT !.wt = [v \in DOMAIN @ |-> IF v <= Len(e.w) THEN e.w[v] ELSE @[v]]]
    [] e.e = "nc"    -> EStore(t, e.id, Set(e.c), e.x = 1)
    [] e.e = "dc"    -> EDelete(t, e.id)
    [] e.e = "sc"    -> EShrink(t, e.id, e.l)
    [] e.e = "as"    -> EAssign(t, e.l, e.r)
    [] e.e = "ur"    -> EReason(t, e.l, e.r)
    [] e.e = "un"    -> EUnassign(t, e.l)
    [] e.e = "ul"    -> ELevel(t, e.l, e.v)
    [] e.e = "wa"    -> EWatch(t, e.id, e.l)
    [] e.e = "uw"    -> EUnwatch(t, e.id, e.l)
    [] e.e = "bl"    -> EBlocker(t, e.id, e.b, e.l)
    [] e.e = "pr"    -> EPropagated(t, e.l)
    [] e.e = "up"    -> EUnpropagated(t, e.l)
    [] e.e = "lk"    -> ELock(t, e.l)
    [] e.e = "uk"    -> EUnlock(t, e.l)
    [] e.e = "chk"   -> EQuiet(t, e.t, e.v)
    [] e.e = "call"  -> [ECall(t) EXCEPT !.ctx = "call"]
    [] e.e = "assume" -> [EAssume(t, e.l, e.ok = 1) EXCEPT !.ctx = "asked"]
    [] e.e = "forget" -> [EForget(t, e.l) EXCEPT !.ctx = "asked"]
    [] e.e = "forgetall" -> EForgetAll(t)
    [] e.e = "blk"   -> EBlock(t, e.lim, e.d = 1)
    [] e.e \in {"solve", "limit", "prop", "autodecide", "status"} -> ECount(EAnswer(t, e.r, e.m, e.root), e.vc)
    [] e.e = "newvar" -> ECount(t, e.a)
    [] e.e = "parsed" -> ECount(t, e.vc)
    [] e.e = "pl"    -> EProofLine(t, e.i, Set(e.c))
    [] e.e = "pend"  -> EProofEnd(t)
    [] OTHER -> t

Init == /\ i \in 1 .. Len(Trace)
        /\ k = 0
        /\ s = [Init0(Trace[i].n, Flag(Trace[i], 1)) EXCEPT !.up = Flag(Trace[i], 4) /\ ~Flag(Trace[i], 32)]
        /\ viol = {}
Next == /\ k < Len(Rec.ev)
        /\ k' = k + 1
        /\ i' = i
        /\ LET e == Rec.ev[k + 1]
               t == Settled(s, e)
               alien == Alien(t, e)
           IN /\ viol' = (Pre(s, e) \cup IF alien THEN {"unknown-variable"} ELSE Guards(t, e)) \cap Watch
              /\ s' = IF alien THEN t ELSE Effect(t, e)
Spec == Init /\ [][Next]_<<i, k, s, viol>>

Conforms == viol = {} \/ ~PrintT("CONFLICT " \o ToJson([name |-> Rec.name, at |-> k, event |-> Rec.ev[k], labels |-> viol]))
=============================================================================
