---------------------------- MODULE Trace_Listing ----------------------------
(* Recorded listings: cases [x, list, recs, errs, lines, before, after].       *)
EXTENDS F15Listing, IOUtils, Json, F15Report
Cases == TLCEval(JsonDeserialize(IOEnv.TRACE).cases)
VARIABLES fid, step, reader
vars == <<fid, step, reader>>
C == Cases[fid]
Init == fid \in 1..Len(Cases) /\ step = 1 /\ reader = ReaderStart
ReadLine == step <= Len(C.lines) /\ step' = step + 1 /\ reader' = Read(reader, C.lines[step], C) /\ UNCHANGED fid
Judge == /\ step = Len(C.lines) + 1 /\ step' = step + 1 /\ UNCHANGED <<fid, reader>>
         /\ LET bad == IF C.x # "" THEN {"C26." \o C.x}
                       ELSE {"C26." \o b : b \in reader.bad} \cup (IF reader.at = "lost" \/ Finished(reader, C) THEN {} ELSE {"C26.incomplete"})
                            \cup (IF C.before = C.after THEN {} ELSE {"C26.sequence-changed"})
            IN  IF bad = {} THEN TRUE ELSE Reject(fid, bad)
Halt == step = Len(C.lines) + 2 /\ UNCHANGED vars
Spec == Init /\ [][ReadLine \/ Judge \/ Halt]_vars
=============================================================================
