------------------------------- MODULE F15Store -------------------------------
(***************************************************************************)
(* The extracted route container.  Two containers (1 and 2) live side by   *)
(* side; records are identified by positive numbers, ADEP and ADES records *)
(* by -1 and -2, None is 0.                                                *)
(* An operation is <<container, name, argument, text>>.                    *)
(***************************************************************************)
EXTENDS F15Messages
None == 0
\* Error messages given to the container; "!" stands for the text of the element.
Templates == <<"no placeholder", "one '!' here", "! and again ! twice", "!">>
TemplatePieces == TLCEval([n \in 1..Len(Templates) |-> CutFrom(Templates[n], 1, 1)])
ErrorOf(n, t) == Fill(TemplatePieces[n], 1, t)
\* Where the elements of errors stand and what they are: the order in which errors are added is not that of the field.
Places == <<<<5, "POINT", "PRP">>, <<0, "UNKNOWN", "UNKNOWN">>, <<40, "ROUTE", "ATS">>, <<17, "POINT", "PRP">>, <<5, "DCT", "DCT">>, <<3, "TOO_LONG", "UNKNOWN">>>>
\* The argument of "error" is ten times a place (from 0) plus a template; what is kept is the text, the message, the place.
ErrorRecord(n, t) == <<t, ErrorOf(n % 10, t)>> \o Places[(n \div 10) + 1]
NewStore == [recs |-> <<-1>>, errs |-> <<>>, der |-> ""]
Stores == [c \in 1..2 |-> NewStore]
ElementAt(s, i) == IF i < 0 \/ i >= Len(s.recs) THEN None ELSE s.recs[i + 1]

StoreApply(st, op) == LET c == op[1] IN
  CASE op[2] \in {"append", "create"} -> [st EXCEPT ![c].recs = Append(@, op[3])]
    [] op[2] = "ades"    -> [st EXCEPT ![c].recs = Append(@, -2)]
    [] op[2] = "error"   -> [st EXCEPT ![c].errs = Append(@, ErrorRecord(op[3], op[4]))]
    [] op[2] = "derived" -> [st EXCEPT ![c].der = op[4]]
    [] op[2] = "renew"   -> [st EXCEPT ![c] = NewStore]
    [] OTHER -> st
Updates == {"append", "create", "ades", "error", "derived", "renew"}
StoreReturns(st, op) == LET s == st[op[1]] t == StoreApply(st, op)[op[1]] IN
  CASE op[2] \in {"append", "create", "ades"} -> t.recs[Len(t.recs)]
    [] op[2] = "at"     -> ElementAt(s, op[3])
    [] op[2] = "first"  -> ElementAt(s, 0)
    [] op[2] = "last"   -> ElementAt(s, Len(s.recs) - 1)
    [] op[2] = "before" -> ElementAt(s, Len(s.recs) - 2)
    [] op[2] = "count"  -> Len(s.recs)
    [] op[2] = "errors" -> Len(s.errs)
    [] op[2] = "all"    -> s.recs
    [] op[2] = "allErr" -> s.errs
    [] op[2] = "rules"  -> s.der
    [] OTHER -> None
=============================================================================
