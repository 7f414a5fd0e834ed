---------------------------- MODULE Trace_Parser ----------------------------
(***************************************************************************)
(* Conformance of recorded parses.  The file named by the environment      *)
(* variable TRACE holds                                                    *)
(*   texts  [[text, [character codes]], ...]                               *)
(*   cases  [{tk, o, p, g}, ...], one per field:                           *)
(*     tk   its tokens [index into texts, start, end]                      *)
(*     o    what the real parser produced: x (exception), ret, der,        *)
(*          ers and errs (records as sequences, see R_... below)           *)
(*     p    WGS84 positions of its located tokens [token, lat, lon]*1e5    *)
(*     g    WGS84 geodesics between them [from, to, azimuth*1e5, dm, stable?] *)
(* Every case is one behaviour of F15Machine; in its final state the       *)
(* observation is judged against the state, property by property.          *)
(***************************************************************************)
EXTENDS F15Machine, F15Observe, IOUtils, Json, F15Report

Prop == IOEnv.PROP                 \* the property to judge, or "ALL"
Input == TLCEval(JsonDeserialize(IOEnv.TRACE))
Cases == Input.cases
KindsOfTexts == TLCEval([x \in 1..Len(Input.texts) |-> TokenKind(Input.texts[x][1], Input.texts[x][2])])
TokensOf(c) == [i \in 1..Len(c.tk) |->
  [t |-> Input.texts[c.tk[i][1]][1], s |-> c.tk[i][2], e |-> c.tk[i][3], k |-> KindsOfTexts[c.tk[i][1]]]]
Fields == TLCEval([l \in 1..Len(Cases) |-> TokensOf(Cases[l])])
FieldOfCase(l) == Fields[l]

AllFailures(T, f, o, c) ==
  IF Prop = "ALL" THEN UNION {Failures(Judged[x], T, f, o, c) : x \in Idx(Judged)}
  ELSE Failures(Prop, T, f, o, c)

---------------------------------------------------------------------------
Init == m = Start0 /\ fid \in 1..Len(Cases)
Judge == /\ m.node = "Final"
         /\ LET bad == AllFailures(toks, m, Cases[fid].o, Cases[fid])
            IN  /\ IF bad = {} THEN TRUE ELSE Reject(fid, bad)
                /\ m' = [node |-> "Judged", ok |-> bad = {}]
         /\ UNCHANGED fid
Halt == m.node = "Judged" /\ UNCHANGED vars
\* Checked with deadlock detection: every behaviour ends in a judged state.
TraceNext == Next \/ Judge \/ Halt
Spec == Init /\ [][TraceNext]_vars
=============================================================================
