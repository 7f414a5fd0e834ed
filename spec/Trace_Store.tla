----------------------------- MODULE Trace_Store -----------------------------
(* Recorded histories of two containers: [container, name, arg, text, returned, exception]. *)
EXTENDS F15Store, IOUtils, Json, F15Report
Cases == TLCEval(JsonDeserialize(IOEnv.TRACE).cases)
VARIABLES fid, step, store, bad
vars == <<fid, step, store, bad>>
Ops == Cases[fid]
Init == fid \in 1..Len(Cases) /\ step = 1 /\ store = Stores /\ bad = {}
Operate == /\ step <= Len(Ops) /\ step' = step + 1 /\ UNCHANGED fid
           /\ LET op == Ops[step] IN
                /\ store' = StoreApply(store, op)
                /\ bad' = bad \cup
                     (IF op[6] # "" THEN {"C21." \o op[2] \o "-raised@" \o ToString(step)}
                      ELSE IF op[2] \notin {"error", "derived", "renew"} /\ op[5] # StoreReturns(store, op)
                           THEN {"C21." \o op[2] \o "@" \o ToString(step)} ELSE {})
Judge == /\ step = Len(Ops) + 1 /\ step' = step + 1 /\ UNCHANGED <<fid, store, bad>>
         /\ IF bad = {} THEN TRUE ELSE Reject(fid, bad)
Halt == step = Len(Ops) + 2 /\ UNCHANGED vars
Spec == Init /\ [][Operate \/ Judge \/ Halt]_vars
=============================================================================
