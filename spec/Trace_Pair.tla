------------------------------ MODULE Trace_Pair ------------------------------
(***************************************************************************)
(* Recorded pairs of parses: TRACE holds texts and cases                   *)
(*   [rel, tk1, tk2, o1, o2, k]  with rel "garbage" (tk2 is tk1 with token *)
(* k inserted), "layout" (the same texts at other positions) or "prefix"   *)
(* (tk1 is the first k tokens of tk2).                                     *)
(* Both fields are parsed by the specification, one after the other, and   *)
(* the relation is judged on the specification and on the observations.    *)
(***************************************************************************)
EXTENDS F15Relations, IOUtils, Json, F15Report
Input == TLCEval(JsonDeserialize(IOEnv.TRACE))
Cases == Input.cases
\* (takes a parameter so that TLC evaluates it in Init, after the tables it uses)
KindsOfTexts(texts) == TLCEval([x \in 1..Len(texts) |-> TokenKind(texts[x][1], texts[x][2])])
TokensOf(kinds, tk) == [i \in 1..Len(tk) |->
  [t |-> Input.texts[tk[i][1]][1], s |-> tk[i][2], e |-> tk[i][3], k |-> kinds[tk[i][1]]]]
VARIABLES fid, toks1, toks2, parse1, parse2
vars == <<fid, toks1, toks2, parse1, parse2>>
Init == /\ parse1 = Start0 /\ parse2 = Start0
        /\ \E kinds \in {KindsOfTexts(Input.texts)} :
             /\ fid \in 1..Len(Cases)
             /\ toks1 = TokensOf(kinds, Cases[fid].tk1) /\ toks2 = TokensOf(kinds, Cases[fid].tk2)
ParseFirst  == parse1.node # "Final" /\ parse1' = Step(toks1, parse1) /\ UNCHANGED <<fid, toks1, toks2, parse2>>
ParseSecond == parse1.node = "Final" /\ parse2.node \notin {"Final", "judged"} /\ parse2' = Step(toks2, parse2) /\ UNCHANGED <<fid, toks1, toks2, parse1>>
\* the harness proposes the pair, the specification decides whether it is one
IsPair(k) == parse1.errs = <<>> /\ IsGap(toks1, k) /\ B(toks2, k) \in {"UNKNOWN", "TOO_LONG"}
Bad == LET c == Cases[fid] IN
  CASE c.rel = "layout" -> SameButMoved(toks1, toks2, c.o1, c.o2, LAMBDA i : i, "C23")
    [] c.rel = "garbage" ->
         IF IsPair(c.k) THEN LocalObs(toks1, toks2, c.o1, c.o2, c.k) ELSE {"skip"}
    [] c.rel = "prefix" ->
         IF toks1 = SubSeq(toks2, 1, c.k) THEN BeginsObs(toks2, c.o1, c.o2, c.k) ELSE {"skip"}
SpecAgrees == LET c == Cases[fid] IN
  CASE c.rel = "layout" -> parse1 = parse2
    [] c.rel = "garbage" -> IsPair(c.k) => P_Local(parse1, parse2, c.k)
    [] c.rel = "prefix"  -> toks1 = SubSeq(toks2, 1, c.k) => P_Begins(parse1, parse2, c.k, Reach)
Judge == /\ parse1.node = "Final" /\ parse2.node = "Final"
         /\ Assert(SpecAgrees, <<"the specification itself breaks the relation", fid>>)
         /\ LET bad == TLCEval(Bad) IN IF bad = {} THEN TRUE ELSE Reject(fid, bad)
         /\ parse2' = [node |-> "judged"] /\ UNCHANGED <<fid, toks1, toks2, parse1>>
Halt == parse2.node = "judged" /\ UNCHANGED vars
Spec == Init /\ [][ParseFirst \/ ParseSecond \/ Judge \/ Halt]_vars
=============================================================================
