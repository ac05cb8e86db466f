------------------------------- MODULE ApiGen -------------------------------
(* Behaviours of the public interface, generated from the abstract machine:    *)
(* all of a given length (breadth-first) or random ones (-simulate).  The      *)
(* calls a behaviour makes depend on what the specification says the solver    *)
(* knows by then (satisfiable?  which assumptions?).  Each finished behaviour  *)
(* is printed and replayed on the real solver.                                 *)
EXTENDS Solver, Json

CONSTANTS N, Depth, MaxSize, Family,
          Twins   \* give clause additions and literal choices double weight (random behaviours)
VARIABLES q, s, kind
vars == <<q, s, kind>>

LitSet == {l \in -N .. N : l # 0}
RECURSIVE Seqs(_, _)
\* clauses as sequences of literals over increasing variables
Seqs(v, k) == IF v > N \/ k = 0 THEN {<<>>}
              ELSE Seqs(v + 1, k) \cup {<<v>> \o r : r \in Seqs(v + 1, k - 1)} \cup {<<-v>> \o r : r \in Seqs(v + 1, k - 1)}
Universe == Seqs(1, MaxSize) \ {<<>>}

Op(o, a) == [o |-> o, a |-> a]
Last == IF q = <<>> THEN "" ELSE q[Len(q)].o
Answers == {"solve", "limit"}
Sat == s.mods # {}

Kinds ==
  CASE Family = "inc" -> {"add", "add2", "solve", "limit", "block", "sync"}
    [] Family = "man" -> {"add", "prop", "decide", "decide2", "solve", "block"}
    [] Family = "asm" -> {"add", "assume", "assume2", "forget", "forgetall", "solve"}
    [] Family = "enum" -> {"add", "add2", "block"}
Enabled(k) ==
  CASE k \in {"add2", "decide2", "assume2"} /\ ~Twins -> FALSE
    [] k \in {"add", "add2"} -> Sat
    [] k = "solve" -> Last # "solve"
    [] k = "limit" -> Last \notin Answers
    [] k = "block" -> Sat /\ Last \in {"solve", "block", "sync"}
    [] k = "sync" -> Last \in Answers
    [] k = "prop" -> Last \notin {"prop", "solve"} /\ Sat
    [] k \in {"decide", "decide2"} -> Sat /\ Last # "solve"
    [] k \in {"assume", "assume2"} -> Sat
    [] k = "forget" -> s.asm # {}
    [] k = "forgetall" -> s.asm # {}
Args(k) ==
  CASE k \in {"add", "add2"} -> Universe
    [] k \in {"decide", "decide2"} -> {<<l>> : l \in LitSet}
    [] k \in {"assume", "assume2"} -> {<<l>> : l \in {x \in LitSet : x \notin s.asm}}
    [] k = "forget" -> {<<l>> : l \in s.asm}
    [] k = "limit" -> {<<0>>, <<1>>}
    [] OTHER -> {<<>>}
Name(k) == CASE k = "add2" -> "push" [] k = "decide2" -> "decide" [] k = "assume2" -> "assume" [] OTHER -> k

Init == q = <<>> /\ s = Init0(N, FALSE) /\ kind = ""
Pick == /\ kind = "" /\ Len(q) < Depth
        /\ kind' \in {k \in Kinds : Enabled(k)}
        /\ UNCHANGED <<q, s>>
Call == /\ kind \notin {"", "stop"}
        /\ \E a \in Args(kind) :
             /\ q' = Append(q, Op(Name(kind), a))
             /\ s' = CASE kind \in {"add", "add2"} -> EAdd(s, Range(a))
                       [] kind \in {"assume", "assume2"} -> IF Possible(s, s.asm \cup Range(a)) THEN EAssume(s, a[1], TRUE) ELSE s
                       [] kind = "forget" -> EForget(s, a[1])
                       [] kind = "forgetall" -> EForgetAll(s)
                       [] OTHER -> s
        /\ kind' = ""
Stop == Len(q) = Depth /\ kind = "" /\ kind' = "stop" /\ UNCHANGED <<q, s>>
Next == Pick \/ Call \/ Stop
Spec == Init /\ [][Next]_vars
Emit == kind # "stop" \/ PrintT("SCRIPT " \o ToJson(q))
=============================================================================
