------------------------------ MODULE Settings ------------------------------
(* What a list of option tokens means.                                          *)
EXTENDS Common
\* names of the switches, with the tokens that name them
SetSwitch ==
  ("--chronological-backtracking" :> "cb") @@ ("-cb" :> "cb") @@ ("--lazy-strong-chronological-backtracking" :> "lscb") @@ ("-lscb" :> "lscb") @@
  ("--graph-backtracking" :> "gb") @@ ("-gb" :> "gb") @@ ("--lazy-chunk-merging" :> "lcm") @@ ("-lcm" :> "lcm") @@
  ("--eager-chunk-merging" :> "ecm") @@ ("-ecm" :> "ecm") @@ ("--backtrack-smallest-chunk" :> "bsc") @@ ("-bsc" :> "bsc") @@
  ("--backtrack-first-chunk" :> "bfc") @@ ("-bfc" :> "bfc") @@ ("--delete-clauses" :> "del") @@ ("-del" :> "del") @@
  ("--ignore-unused-variables" :> "iuv") @@ ("-iuv" :> "iuv") @@ ("--ignore-unused_variables" :> "iuv") @@ ("--interactive" :> "i") @@ ("-i" :> "i") @@
  ("--observing" :> "o") @@ ("-o" :> "o") @@ ("--check-invariants" :> "c") @@ ("-c" :> "c") @@ ("--save-state-on-interrupt" :> "ssi") @@ ("-ssi" :> "ssi") @@
  ("--statistics" :> "stat") @@ ("-stat" :> "stat") @@ ("--live-statistics" :> "lstat") @@ ("-live-stat" :> "lstat") @@
  ("--proof" :> "bp") @@ ("-bp" :> "bp") @@ ("--check-proof" :> "cp") @@ ("-cp" :> "cp") @@ ("--print-proof" :> "pp") @@ ("-pp" :> "pp") @@
  ("--record-dependencies" :> "rd") @@ ("--restarts" :> "rst") @@ ("--backtrack-learned" :> "bl") @@ ("-bl" :> "bl") @@
  ("--use-max-approximate-cost-estimation" :> "max") @@ ("-max-approx-cost" :> "max") @@
  ("--use-sum-approximate-cost-estimation" :> "sum") @@ ("-sum-approx-cost" :> "sum") @@
  ("--use-vsids-approximate-cost-estimation" :> "vsids") @@ ("-vsids-approx-cost" :> "vsids")
SetNumber ==
  ("--var-activity-decay" :> "vad") @@ ("--clause-elimination-multiplier" :> "cem") @@ ("--clause-activity-multiplier" :> "cam") @@
  ("--clause-activity-threshold-decay" :> "catd") @@ ("--chunk-level-penalty" :> "clp") @@ ("--backtrack-possibilities-limit" :> "bpl") @@
  ("--sync-weight" :> "sw") @@ ("--timeout" :> "t") @@ ("-t" :> "t") @@ ("--conflict-limit" :> "cl") @@ ("-cl" :> "cl")
SetDefaults == [on |-> {"del", "ssi", "rst"},
                num |-> [vad |-> "0.95", cem |-> "2", cam |-> "1.001", catd |-> "0.85", clp |-> "0.01", bpl |-> "1000", sw |-> "8", t |-> "-1", cl |-> "-1"]]
\* the texts used as numbers, with their values (tokens that are no numbers: anything else)
SetValue == [x \in {"0", "1", "2", "3", "0.5", "0.25", "0.75", "7", "100", "1000", "12345"} |-> x]
            @@ ("1e3" :> "1000") @@ (".5" :> "0.5") @@ ("5e-1" :> "0.5") @@ ("007" :> "7")
SetNumbers == DOMAIN SetValue

\* ---- reading the tokens: the first proper occurrence of each option counts ----
\* a token that may stand for the value of the option before it
Dash == {"-", "--"} \cup DOMAIN SetSwitch \cup DOMAIN SetNumber \cup {"-1", "--unknown", "-x", "--suppress-warning", "-sw", "--suppress-info", "-si", "-icf",
         "--obsidian-template-folder", "--invariant-configuration-folder", "-commands", "--gui"}
Next1(t, i) == IF i < Len(t) THEN t[i + 1] ELSE ""
HasValue(t, i) == Next1(t, i) # "" /\ Next1(t, i) \notin Dash
RECURSIVE SetRead(_, _, _)
\* r = [on, num, set]
SetRead(t, i, r) ==
  IF i > Len(t) THEN r
  ELSE IF t[i] \in DOMAIN SetSwitch THEN
    LET n == SetSwitch[t[i]] IN
    IF n \in r.set THEN SetRead(t, i + 1, r)
    ELSE IF ~HasValue(t, i) THEN SetRead(t, i + 1, [r EXCEPT !.on = @ \cup {n}, !.set = @ \cup {n}])
    ELSE IF Next1(t, i) = "on" THEN SetRead(t, i + 2, [r EXCEPT !.on = @ \cup {n}, !.set = @ \cup {n}])
    ELSE IF Next1(t, i) = "off" THEN SetRead(t, i + 2, [r EXCEPT !.on = @ \ {n}, !.set = @ \cup {n}])
    ELSE SetRead(t, i + 1, r)
  ELSE IF t[i] \in DOMAIN SetNumber THEN
    LET n == SetNumber[t[i]] IN
    IF n \in r.set \/ Next1(t, i) \notin SetNumbers THEN SetRead(t, i + 1, r)
    ELSE SetRead(t, i + 2, [r EXCEPT !.num[n] = SetValue[Next1(t, i)], !.set = @ \cup {n}])
  ELSE SetRead(t, i + 1, r)

\* ---- what excludes what ----
SetSubsumes == {<<"lscb", "cb">>, <<"bfc", "bsc">>}
SetNeeds == {<<"bl", "gb", TRUE>>, <<"lcm", "gb", TRUE>>, <<"ecm", "gb", TRUE>>, <<"ecm", "lcm", FALSE>>, <<"bsc", "gb", TRUE>>, <<"bfc", "gb", TRUE>>,
             <<"max", "gb", TRUE>>, <<"sum", "gb", TRUE>>, <<"sum", "max", FALSE>>, <<"vsids", "gb", TRUE>>, <<"vsids", "max", FALSE>>, <<"vsids", "sum", FALSE>>}
\* all these switches are off by default, so that resetting is switching off
SetDrops(on) == {p[2] : p \in {q \in SetSubsumes : q[1] \in on /\ q[2] \in on}}
                \cup {q[1] : q \in {x \in SetNeeds : x[1] \in on /\ ((x[2] \in on) # x[3])}}
\* the outcome in closed form; MCSettings shows that dropping one at a time in the documented passes ends here
SetResolve(on) ==
  LET a == IF "lscb" \in on THEN on \ {"cb"} ELSE on
      b == IF "gb" \in a THEN a ELSE a \ {"bl", "lcm", "ecm", "bsc", "bfc", "max", "sum", "vsids"}
      c == IF "lcm" \in b THEN b \ {"ecm"} ELSE b
      d == IF "bfc" \in c THEN c \ {"bsc"} ELSE c
      e == IF "max" \in d THEN d \ {"sum", "vsids"} ELSE IF "sum" \in d THEN d \ {"vsids"} ELSE d
  IN e
SetDerive(on, commands) ==
  LET a == IF "lscb" \in on THEN on \cup {"cb"} ELSE on
      b == IF "gb" \in a THEN a \ {"cb"} ELSE a
      c == IF commands THEN b \cup {"i"} ELSE b
      d == IF c \cap {"pp", "cp"} # {} THEN c \cup {"bp"} ELSE c
      e == IF d \cap {"o", "i"} = {} THEN d \ {"stat", "lstat"} ELSE d
  IN e
\* the group in braces after the first -o
SetObs == {"-o", "--observing"}
SetExpect(t, commands) ==
  LET r == SetRead(t, 1, [on |-> SetDefaults.on, num |-> SetDefaults.num, set |-> {}])
  IN [on |-> SetDerive(SetResolve(r.on), commands), num |-> r.num]

\* ---- environment options: taken out of the list with their values ----
EnvSwitch == ("--suppress-warning" :> "sw") @@ ("-sw" :> "sw") @@ ("--suppress-info" :> "si") @@ ("-si" :> "si")
EnvText == ("--obsidian-template-folder" :> "otf") @@ ("--invariant-configuration-folder" :> "icf") @@ ("-icf" :> "icf")
RECURSIVE EnvRead(_, _, _)
EnvRead(t, i, r) ==
  IF i > Len(t) THEN r
  ELSE IF t[i] \in DOMAIN EnvSwitch THEN
    LET n == EnvSwitch[t[i]] IN
    IF ~HasValue(t, i) THEN EnvRead(t, i + 1, [r EXCEPT ![n] = 1])
    ELSE IF Next1(t, i) = "on" THEN EnvRead(t, i + 2, [r EXCEPT ![n] = 1])
    ELSE IF Next1(t, i) = "off" THEN EnvRead(t, i + 2, [r EXCEPT ![n] = 0])
    ELSE EnvRead(t, i + 1, r)
  ELSE IF t[i] \in DOMAIN EnvText THEN
    IF HasValue(t, i) THEN EnvRead(t, i + 2, [r EXCEPT ![EnvText[t[i]]] = Next1(t, i)]) ELSE EnvRead(t, i + 1, r)
  ELSE EnvRead(t, i + 1, [r EXCEPT !.rest = Append(@, t[i])])

\* state: the last list given, and the environment
SetInit == [t |-> <<>>, sw |-> 1, si |-> 1, icf |-> "../invariant-configurations/", otf |-> "../obsidian_template/"]
SetEnv(s, t) == EnvRead(t, 1, [sw |-> s.sw, si |-> s.si, icf |-> s.icf, otf |-> s.otf, rest |-> <<>>])
SetAfter(s, e) ==
  CASE e.o = "given" -> [s EXCEPT !.t = e.t]
    [] e.o = "env" -> LET r == SetEnv(s, e.t) IN [s EXCEPT !.sw = r.sw, !.si = r.si, !.icf = r.icf, !.otf = r.otf]
    [] OTHER -> s
\* the brace group: tokens after the first -o from one starting with { to one ending with }; the generator writes them as single
\* words, braces apart, in SetGroups
SetGroups == ("{--gui}" :> <<"--gui">>) @@ ("{--gui x}" :> <<"--gui", "x">>) @@ ("{-commands f}" :> <<"-commands", "f">>)
SetSplit(t) ==  \* <<sentinel tokens, remaining tokens>>
  LET os == {i \in 1 .. Len(t) : t[i] \in SetObs} IN
  IF os = {} THEN <<<<>>, t>>
  ELSE LET i == CHOOSE x \in os : \A y \in os : x <= y IN
       IF Next1(t, i) \notin DOMAIN SetGroups THEN <<<<>>, t>>
       ELSE <<SetGroups[t[i + 1]], SubSeq(t, 1, i) \o SubSeq(t, i + 2, Len(t))>>
\* the only value that is refused altogether: the program ends with exit code 1
SetFatal(s) == SetExpect(SetSplit(s.t)[2], FALSE).num.catd \notin {"0", "1", "0.5", "0.25", "0.75", "0.85"}
SetWrong(s, e) ==
  CASE e.o = "opt" -> IF SetFatal(s) THEN {"range-accepted"} ELSE LET p == SetSplit(s.t)
                          x == SetExpect(p[2], "-commands" \in Elems(p[1])) IN
         Wrong(Elems(e.on) = x.on, "switches") \cup Wrong(e.num = x.num, "numbers") \cup Wrong(e.sen = p[1], "observer-options")
    [] e.o = "env" -> LET r == SetEnv(s, e.t) IN
         Wrong(e.rest = r.rest, "environment-rest") \cup Wrong(<<e.sw, e.si, e.icf, e.otf>> = <<r.sw, r.si, r.icf, r.otf>>, "environment")
    [] OTHER -> {}
=============================================================================
