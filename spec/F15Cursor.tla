------------------------------ MODULE F15Cursor ------------------------------
(***************************************************************************)
(* The token list with its cursor, as an object with operations.           *)
(* Tokens are identified by positive numbers, None is 0; indices are       *)
(* zero-based.  An operation is <<name, argument 1, argument 2>>.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == 0
EmptyList == [list |-> <<>>, cur |-> 0]

At(st, i) == IF i < 0 \/ i >= Len(st.list) THEN None ELSE st.list[i + 1]
InsertAt(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))
Clip(i, n) == IF i > n THEN n ELSE i

Edits == {"append", "create", "insert", "truncate"}
Moves == {"first", "last", "next", "prev"}
Reads == {"current", "peekNext", "peekPrev", "at", "count", "list"}

CursorApply(st, op) ==
  CASE op[1] \in {"append", "create"} -> [st EXCEPT !.list = Append(@, op[2])]
    [] op[1] = "insert"   -> [st EXCEPT !.list = InsertAt(@, Clip(op[3], Len(@)), op[2])]
    [] op[1] = "truncate" -> [st EXCEPT !.list = SubSeq(@, 1, Clip(op[2] + 1, Len(@)))]
    [] op[1] = "first" -> [st EXCEPT !.cur = 0]
    [] op[1] = "last"  -> [st EXCEPT !.cur = Len(st.list) - 1]
    [] op[1] = "next"  -> [st EXCEPT !.cur = @ + 1]
    [] op[1] = "prev"  -> [st EXCEPT !.cur = @ - 1]
    [] op[1] \in Reads -> st

\* What an operation returns: moves return the token they have moved to.
CursorReturns(st, op) ==
  CASE op[1] \in Moves \cup {"current"} -> At(CursorApply(st, op), CursorApply(st, op).cur)
    [] op[1] = "peekNext" -> At(st, st.cur + op[2])
    [] op[1] = "peekPrev" -> At(st, st.cur - op[2])
    [] op[1] = "at"    -> At(st, op[2])
    [] op[1] = "count" -> Len(st.list)
    [] op[1] = "list"  -> st.list
    [] op[1] \in Edits -> None
=============================================================================
