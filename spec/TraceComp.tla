----------------------------- MODULE TraceComp -----------------------------
(* Validation of recorded component executions, one step per recorded call.    *)
EXTENDS BitSets, Heaps, SearchTrees, Lubies, Dependencies, Refutations, Settings, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, s, bad
Rec == Trace[i]
Start0(kind) == CASE kind = "bitset" -> BitInit [] kind = "heap" -> HeapInit [] kind = "tree" -> TreeInit [] kind = "luby" -> LubyInit
                 [] kind = "deps" -> DepInit [] kind = "proof" -> RefInit [] kind = "options" -> SetInit
After(kind, t, e) == CASE kind = "bitset" -> BitAfter(t, e) [] kind = "heap" -> HeapAfter(t, e) [] kind = "tree" -> TreeAfter(t, e)
                       [] kind = "luby" -> LubyAfter(t, e) [] kind = "deps" -> DepAfter(t, e) [] kind = "proof" -> RefAfter(t, e)
                       [] kind = "options" -> SetAfter(t, e)
Judge(kind, t, e) == CASE kind = "bitset" -> BitWrong(t, e) [] kind = "heap" -> HeapWrong(t, e) [] kind = "tree" -> TreeWrong(t, e)
                       [] kind = "luby" -> LubyWrong(t, e) [] kind = "deps" -> DepWrong(t, e) [] kind = "proof" -> RefWrong(t, e)
                       [] kind = "options" -> SetWrong(t, e)
\* a call within its preconditions that ends the process
Crash(kind, t, e) == IF kind = "options" THEN Wrong(SetFatal(t) /\ e.how = "exit1", "crash") ELSE {"crash"}
Init == i \in 1 .. Len(Trace) /\ k = 0 /\ s = Start0(Trace[i].kind) /\ bad = {}
Next == /\ k < Len(Rec.ev) /\ bad = {} /\ k' = k + 1 /\ i' = i
        /\ LET e == Rec.ev[k + 1] IN
           IF e.o = "crash" THEN bad' = Crash(Rec.kind, s, e) /\ s' = s
           ELSE LET w == Judge(Rec.kind, s, e) IN bad' = w /\ s' = IF w = {} THEN After(Rec.kind, s, e) ELSE s
Spec == Init /\ [][Next]_<<i, k, s, bad>>
Conforms == bad = {} \/ ~PrintT("CONFLICT " \o ToJson([name |-> Rec.name, at |-> k, event |-> Rec.ev[k], labels |-> bad]))
=============================================================================
