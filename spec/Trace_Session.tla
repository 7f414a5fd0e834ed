----------------------------- MODULE Trace_Session -----------------------------
(* Recorded sessions: cases [meaning, content, ops]; meaning[f] and content[f] are what *)
(* field f gives in a process of its own, ops are [name, a, b, observed] (all results   *)
(* interned as numbers).                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, F15Report
Cases == TLCEval(JsonDeserialize(IOEnv.TRACE).cases)
VARIABLES fid, step, session, bad
vars == <<fid, step, session, bad>>
Ops == Cases[fid].ops
Mean(f) == Cases[fid].meaning[f]
Txt(f) == Cases[fid].content[f]
Lib == INSTANCE F15Session WITH Meaning <- Mean, Content <- Txt
Init == fid \in 1..Len(Cases) /\ step = 1 /\ session = Lib!NewSession /\ bad = {}
Operate == /\ step <= Len(Ops) /\ step' = step + 1 /\ UNCHANGED fid
           /\ LET op == Ops[step] IN
                /\ Assert(Lib!Enabled(session, op), <<"operation out of order", fid, step>>)
                /\ session' = Lib!SessionApply(session, op)
                /\ bad' = bad \cup (IF op[4] = Lib!SessionReturns(session, op) THEN {} ELSE {"C18." \o op[1] \o "@" \o ToString(step)})
Judge == /\ step = Len(Ops) + 1 /\ step' = step + 1 /\ UNCHANGED <<fid, session, bad>>
         /\ IF bad = {} THEN TRUE ELSE Reject(fid, bad)
Halt == step = Len(Ops) + 2 /\ UNCHANGED vars
Spec == Init /\ [][Operate \/ Judge \/ Halt]_vars
=============================================================================
