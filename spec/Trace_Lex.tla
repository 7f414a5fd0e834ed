------------------------------ MODULE Trace_Lex ------------------------------
(***************************************************************************)
(* Recorded histories of tokenizer objects: TRACE holds cases, each a list *)
(* of operations [name, argument, observed result] (characters as codes,   *)
(* tokens as [codes, start, end]).                                         *)
(***************************************************************************)
EXTENDS F15Lex, IOUtils, Json, F15Report
Cases == TLCEval(JsonDeserialize(IOEnv.TRACE).cases)
VARIABLES fid, step, lexer, bad
vars == <<fid, step, lexer, bad>>
Ops == Cases[fid]
Seen(list) == [x \in 1..Len(list) |-> [t |-> list[x][1], s |-> list[x][2], e |-> list[x][3]]]
Agrees(op) ==
  CASE op[1] \in {"tokens", "again"} -> Seen(op[3]) = LexReturns(lexer, op)
    [] op[1] = "text" -> op[3] = LexReturns(lexer, op)
    [] op[1] = "raised" -> FALSE
    [] OTHER -> TRUE
Init == fid \in 1..Len(Cases) /\ step = 1 /\ lexer = NewTokenizer /\ bad = {}
Operate == /\ step <= Len(Ops)
           /\ LET op == Ops[step] IN
                /\ bad' = bad \cup (IF Agrees(op) THEN {} ELSE {"C01." \o op[1] \o "@" \o ToString(step)})
                /\ lexer' = IF op[1] = "raised" THEN lexer ELSE LexApply(lexer, op)
           /\ step' = step + 1 /\ UNCHANGED fid
Judge == /\ step = Len(Ops) + 1 /\ step' = step + 1
         /\ IF bad = {} THEN TRUE ELSE Reject(fid, bad)
         /\ UNCHANGED <<fid, lexer, bad>>
Halt == step = Len(Ops) + 2 /\ UNCHANGED vars
Spec == Init /\ [][Operate \/ Judge \/ Halt]_vars
=============================================================================
