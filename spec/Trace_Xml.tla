------------------------------ MODULE Trace_Xml ------------------------------
(* Recorded exports: cases [x, der, recs, errs, evs]; x is "" or why the document could *)
(* not be obtained or read.  The reader reads the document against the content.        *)
EXTENDS F15Xml, IOUtils, Json, F15Report
Cases == TLCEval(JsonDeserialize(IOEnv.TRACE).cases)
VARIABLES fid, step, reader
vars == <<fid, step, reader>>
C == Cases[fid]
Init == fid \in 1..Len(Cases) /\ step = 1 /\ reader = ReaderStart
ReadEvent == step <= Len(C.evs) /\ step' = step + 1 /\ reader' = Read(reader, C.evs[step], C) /\ UNCHANGED fid
Judge == /\ step = Len(C.evs) + 1 /\ step' = step + 1 /\ UNCHANGED <<fid, reader>>
         /\ IF C.x # "" THEN Reject(fid, {"C22." \o C.x})
            ELSE IF reader.at = "end" /\ reader.bad = {} THEN TRUE
            ELSE Reject(fid, IF reader.bad = {} THEN {"C22.incomplete"} ELSE {"C22." \o b : b \in reader.bad})
Halt == step = Len(C.evs) + 2 /\ UNCHANGED vars
Spec == Init /\ [][ReadEvent \/ Judge \/ Halt]_vars
=============================================================================
