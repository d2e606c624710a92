---------------------------- MODULE HistoryTrace ----------------------------
(* Recorded histories: a case is [steps, ref, late]
     steps   of calls: [call, res, before, after]: number of the call; numbers of its value and of its arguments
             before and after (equal numbers: bit by bit equal)
     ref     value of every call in a fresh process
     late    numbers of the values of the steps at the end of the history *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

RECURSIVE Walk(_, _, _)
Walk(c, k, memo) ==
  IF k > Len(c.steps) THEN "ok"
  ELSE LET s == c.steps[k]
       IN IF s.before # s.after THEN "a call modified its arguments"
          ELSE IF s.call \in DOMAIN memo /\ memo[s.call] # s.res THEN "the same call gives different values"
          ELSE Walk(c, k + 1, [j \in DOMAIN memo \cup {s.call} |-> IF j = s.call THEN s.res ELSE memo[j]])

Verdict(c) ==
  LET w == Walk(c, 1, [j \in DOMAIN c.ref |-> c.ref[j]])
  IN CASE w # "ok" -> w
       [] \E k \in DOMAIN c.steps : c.late[k] # c.steps[k].res -> "a later call altered an earlier value"
       [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
