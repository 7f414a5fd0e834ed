----------------------------- MODULE Trace_Class -----------------------------
(* Recorded classifications: TRACE holds cases [text, codes, base, subtype].  *)
(* Classification is one step: the token is looked up in the syntax table.    *)
EXTENDS F15Syntax, IOUtils, Json, F15Report
Cases == TLCEval(JsonDeserialize(IOEnv.TRACE).cases)
VARIABLES fid, kindOf
vars == <<fid, kindOf>>
ASSUME TableIsDeterministic
Init == fid \in 1..Len(Cases) /\ kindOf = <<>>
ClassifyToken == kindOf = <<>> /\ kindOf' = Classify(Cases[fid][2]) /\ UNCHANGED fid
Judge == /\ Len(kindOf) = 2 /\ kindOf' = <<"judged">> /\ UNCHANGED fid
         /\ IF kindOf = <<Cases[fid][3], Cases[fid][4]>> THEN TRUE
            ELSE Reject(fid, {"C02.kind-should-be-" \o kindOf[1] \o "-" \o kindOf[2]})
Halt == kindOf = <<"judged">> /\ UNCHANGED vars
Spec == Init /\ [][ClassifyToken \/ Judge \/ Halt]_vars
=============================================================================
