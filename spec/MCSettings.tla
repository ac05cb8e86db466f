----------------------------- MODULE MCSettings -----------------------------
(* Conflicts between switches may be resolved one at a time in any order.       *)
EXTENDS Settings
Flags == {"cb", "lscb", "gb", "bl", "lcm", "ecm", "bsc", "bfc", "max", "sum", "vsids"}
VARIABLES given, on
Init == given \in SUBSET Flags /\ on = given
Next == \E d \in SetDrops(on) : on' = on \ {d} /\ UNCHANGED given
Spec == Init /\ [][Next]_<<given, on>>
Sound == SetDrops(SetResolve(given)) = {}
\* an order exists only where an option is excluded by one that is dropped itself: gb is never dropped, so there is none
Confluent == SetDrops(on) = {} => on = SetResolve(given)
=============================================================================
