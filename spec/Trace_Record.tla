----------------------------- MODULE Trace_Record -----------------------------
(* Recorded histories of records and tokens: [object, operation, value name, value, returned, exception]. *)
EXTENDS F15Record, IOUtils, Json, F15Report
Cases == TLCEval(JsonDeserialize(IOEnv.TRACE).cases)
VARIABLES fid, step, held, bad
vars == <<fid, step, held, bad>>
Ops == Cases[fid]
Init == fid \in 1..Len(Cases) /\ step = 1 /\ held = Objects /\ bad = {}
Wrong(op) == LET want == RecordReads(held, op) IN
   IF Len(op[5]) # Len(want) THEN {"C27.read@" \o ToString(step)}
   ELSE {"C27." \o ValuesOf(op[1])[i] \o "@" \o ToString(step) : i \in {j \in 1..Len(want) : want[j] # op[5][j]}}
Operate == /\ step <= Len(Ops) /\ step' = step + 1 /\ UNCHANGED fid
           /\ LET op == Ops[step] IN
                /\ held' = RecordApply(held, op)
                /\ bad' = bad \cup (IF op[6] # "" THEN {"C27." \o op[2] \o "-raised@" \o ToString(step)}
                                    ELSE IF op[2] = "read" THEN Wrong(op) ELSE {})
Judge == /\ step = Len(Ops) + 1 /\ step' = step + 1 /\ UNCHANGED <<fid, held, bad>>
         /\ IF bad = {} THEN TRUE ELSE Reject(fid, bad)
Halt == step = Len(Ops) + 2 /\ UNCHANGED vars
Spec == Init /\ [][Operate \/ Judge \/ Halt]_vars
=============================================================================
