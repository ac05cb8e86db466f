------------------------------- MODULE MCLuby -------------------------------
(* The counter keeps a count and a power of two; it yields the sequence.        *)
EXTENDS Lubies
CONSTANT Limit
VARIABLES n, c, s, fired
\* c: the counter; s: the sequence
Counter == [count |-> 0, order |-> 1, power |-> 1, skip |-> TRUE]
Init == n = 0 /\ c = Counter /\ s = LubyInit /\ fired = <<FALSE, FALSE>>
Tick == IF c.count + 1 # c.power THEN [c EXCEPT !.count = @ + 1]
        ELSE IF c.power < 2 ^ c.order THEN [c EXCEPT !.count = 0, !.power = IF c.skip THEN @ ELSE 2 * @, !.skip = FALSE]
        ELSE [c EXCEPT !.count = 0, !.order = @ + 1, !.power = 1, !.skip = TRUE]
Increment == /\ n < Limit /\ n' = n + 1 /\ c' = Tick
             /\ LET r == LubyRun(s, 1, <<>>) IN s' = r.s /\ fired' = <<Tick.count = 0, r.out # <<>>>>
\* a reset leads back to the initial state at any moment
Reset == n > 0 /\ n' = 0 /\ c' = Counter /\ s' = LubyInit /\ fired' = <<FALSE, FALSE>>
Next == Increment \/ Reset
Spec == Init /\ [][Next]_<<n, c, s, fired>>
Same == fired[1] = fired[2] /\ c.power - c.count = s.left
=============================================================================
