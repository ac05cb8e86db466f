------------------------------ MODULE CompGen ------------------------------
(* Behaviours of the component specifications: all of a given length, or        *)
(* random ones (-simulate); each is printed and replayed on the real code.      *)
EXTENDS BitSets, Heaps, SearchTrees, Lubies, Dependencies, Refutations, Json
CONSTANTS Kind, Depth, Picked
VARIABLES q, s, pick
vars == <<q, s, pick>>
Kinds == CASE Kind = "bitset" -> BitKinds [] Kind = "heap" -> HeapKinds [] Kind = "tree" -> TreeKinds [] Kind = "luby" -> LubyKinds
           [] Kind = "deps" -> DepKinds [] Kind = "proof" -> RefKinds
Calls(t, k) == CASE Kind = "bitset" -> BitCalls(t, k) [] Kind = "heap" -> HeapCalls(t, k) [] Kind = "tree" -> TreeCalls(t, k)
                 [] Kind = "luby" -> LubyCalls(t, k) [] Kind = "deps" -> DepCalls(t, k) [] Kind = "proof" -> RefCalls(t, k)
After(t, c) == CASE Kind = "bitset" -> BitAfter(t, c) [] Kind = "heap" -> HeapGen(t, c) [] Kind = "tree" -> TreeAfter(t, c)
                 [] Kind = "luby" -> LubyAfter(t, c) [] Kind = "deps" -> DepAfter(t, c) [] Kind = "proof" -> RefAfter(t, c)
Init == q = <<>> /\ pick = "" /\ s = CASE Kind = "bitset" -> BitInit [] Kind = "heap" -> HeapInit [] Kind = "tree" -> TreeInit
                                       [] Kind = "luby" -> LubyInit [] Kind = "deps" -> DepInit [] Kind = "proof" -> RefInit
Pick == pick = "" /\ Len(q) < Depth /\ pick' \in {k \in Picked \cap Kinds : Calls(s, k) # {}} /\ UNCHANGED <<q, s>>
Call == /\ pick \notin {"", "stop"}
        /\ \E c \in Calls(s, pick) : q' = Append(q, c) /\ s' = After(s, c)
        /\ pick' = ""
Stop == Len(q) = Depth /\ pick = "" /\ pick' = "stop" /\ UNCHANGED <<q, s>>
Next == Pick \/ Call \/ Stop
Spec == Init /\ [][Next]_vars
Emit == pick # "stop" \/ PrintT("SCRIPT " \o ToJson(q))
=============================================================================
