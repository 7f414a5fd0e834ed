----------------------------- MODULE Trace_Threads -----------------------------
(* Recorded concurrent parses: cases [word, whole, tk, alone, together].  word is the   *)
(* schedule the harness imposed (repeated as long as needed; where whole[i] = 1 the      *)
(* thread ran to its end in that step), tk the token lists of the threads;               *)
(* alone[t] and together[t] what thread t's parse gave by itself and under it.           *)
EXTENDS F15Parser, IOUtils, Json, F15Report
Input == TLCEval(JsonDeserialize(IOEnv.TRACE))
Cases == Input.cases
KindsOfTexts == TLCEval([x \in 1..Len(Input.texts) |-> TokenKind(Input.texts[x][1], Input.texts[x][2])])
TokensOf(tk) == [i \in 1..Len(tk) |->
  [t |-> Input.texts[tk[i][1]][1], s |-> tk[i][2], e |-> tk[i][3], k |-> KindsOfTexts[tk[i][1]]]]
VARIABLES fid, toks, ms, step
vars == <<fid, toks, ms, step>>
T == 1..Len(Cases[fid].tk)
Init == /\ fid \in 1..Len(Cases)
        /\ toks = [t \in 1..Len(Cases[fid].tk) |-> TokensOf(Cases[fid].tk[t])]
        /\ ms = [t \in 1..Len(Cases[fid].tk) |-> Start0]
        /\ step = 0
Finished == \A t \in T : ms[t].node = "Final"
\* the thread the schedule names, or another one when that has finished
Turn == LET w == Cases[fid].word  t == w[(step % Len(w)) + 1]
        IN  IF ms[t].node # "Final" THEN t ELSE CHOOSE u \in T : ms[u].node # "Final"
Run == /\ step >= 0 /\ ~ Finished /\ step' = step + 1 /\ UNCHANGED <<fid, toks>>
       /\ LET t == TLCEval(Turn)
              before == ms[t]
              i == (step % Len(Cases[fid].word)) + 1
              after == TLCEval(IF Cases[fid].whole[i] = 1 /\ before = Start0 THEN Parse(toks[t]) ELSE Step(toks[t], before))
          IN  ms' = [ms EXCEPT ![t] = after]
Judge == /\ step >= 0 /\ Finished /\ step' = -1 /\ UNCHANGED <<fid, toks, ms>>
         /\ Assert(\A t \in T : ms[t] = Parse(toks[t]), <<"the specification interferes", fid>>)
         /\ LET bad == {"C19.thread-" \o ToString(t) : t \in {u \in T : Cases[fid].alone[u] # Cases[fid].together[u]}}
            IN  IF bad = {} THEN TRUE ELSE Reject(fid, bad)
Halt == step = -1 /\ UNCHANGED vars
Spec == Init /\ [][Run \/ Judge \/ Halt]_vars
=============================================================================
