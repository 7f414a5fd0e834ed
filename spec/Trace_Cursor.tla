----------------------------- MODULE Trace_Cursor -----------------------------
(* Recorded histories of token lists: cases of [name, arg 1, arg 2, returned].  *)
EXTENDS F15Cursor, IOUtils, Json, F15Report
Cases == TLCEval(JsonDeserialize(IOEnv.TRACE).cases)
VARIABLES fid, step, cursor, bad
vars == <<fid, step, cursor, bad>>
Ops == Cases[fid]
Init == fid \in 1..Len(Cases) /\ step = 1 /\ cursor = EmptyList /\ bad = {}
Operate == /\ step <= Len(Ops) /\ step' = step + 1 /\ UNCHANGED fid
           /\ LET op == Ops[step] IN
                /\ cursor' = CursorApply(cursor, op)
                /\ bad' = bad \cup (IF op[1] \in Edits \/ (op[5] = "" /\ op[4] = CursorReturns(cursor, op)) THEN {}
                                    ELSE {"C20." \o op[1] \o "@" \o ToString(step)})
                                \cup (IF op[1] \in Edits /\ op[5] # "" THEN {"C20." \o op[1] \o "-raised@" \o ToString(step)} ELSE {})
Judge == /\ step = Len(Ops) + 1 /\ step' = step + 1 /\ UNCHANGED <<fid, cursor, bad>>
         /\ IF bad = {} THEN TRUE ELSE Reject(fid, bad)
Halt == step = Len(Ops) + 2 /\ UNCHANGED vars
Spec == Init /\ [][Operate \/ Judge \/ Halt]_vars
=============================================================================
