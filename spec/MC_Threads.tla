------------------------------ MODULE MC_Threads ------------------------------
(* Several threads share one parser object; each parses its own field.  The     *)
(* parser object has no state of its own, every step is one of one thread's     *)
(* machine.  All interleavings of all assignments of fields to threads.         *)
EXTENDS F15Parser, F15Report
CONSTANTS Texts, NThreads, Emit, EmitLen
VARIABLES field, ms, sched
vars == <<field, ms, sched>>
KindOf == TLCEval([t \in UNION {{Texts[f][i] : i \in 1..Len(Texts[f])} : f \in 1..Len(Texts)} |-> KindOfText(t)])
Toks(f) == [i \in 1..Len(Texts[f]) |-> [t |-> Texts[f][i], s |-> i, e |-> i, k |-> KindOf[Texts[f][i]]]]
T == 1..NThreads
Init == field \in [T -> 1..Len(Texts)] /\ ms = [t \in T |-> Start0] /\ sched = <<>>
Run(t) == /\ ms[t].node # "Final" /\ ms' = [ms EXCEPT ![t] = Step(Toks(field[t]), @)]
          /\ sched' = (IF Emit /\ Len(sched) < EmitLen THEN Append(sched, t) ELSE sched) /\ UNCHANGED field
Next == \E t \in T : Run(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Run(t))
Inv_C19 == \A t \in T : ms[t].node = "Final" => ms[t] = Parse(Toks(field[t]))
\* a step of one thread does not touch the others
Frame == [][\E t \in T : \A u \in T \ {t} : ms'[u] = ms[u]]_vars
AllFinish == <>(\A t \in T : ms[t].node = "Final")
Emitted == (Emit /\ Len(sched) = EmitLen) => Emission(sched)
=============================================================================
