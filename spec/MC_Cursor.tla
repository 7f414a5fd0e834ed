------------------------------ MODULE MC_Cursor ------------------------------
(* Every history of at most MaxOps operations; hist keeps it, so that the     *)
(* properties can be stated over the history instead of the state.            *)
EXTENDS F15Cursor, F15Report
CONSTANTS MaxOps, Args, Names, Emit
VARIABLES cursor, hist, fresh
vars == <<cursor, hist, fresh>>
AllOps == {<<"append", fresh, 0>>, <<"create", fresh, 0>>}
  \cup {<<"insert", fresh, a>> : a \in {x \in Args : x >= 0}}
  \cup {<<"truncate", a, 0>> : a \in {x \in Args : x >= -1}}
  \cup {<<o, 0, 0>> : o \in Moves \cup {"current", "count", "list"}}
  \cup {<<o, a, 0>> : o \in {"peekNext", "peekPrev", "at"}, a \in Args}
Ops == {op \in AllOps : op[1] \in Names}
Init == cursor = EmptyList /\ hist = <<>> /\ fresh = 1
Do(op) == /\ cursor' = CursorApply(cursor, op) /\ hist' = Append(hist, op)
          /\ fresh' = IF op[1] \in {"append", "create", "insert"} THEN fresh + 1 ELSE fresh
Next == Len(hist) < MaxOps /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
\* every token is there exactly when it was added and not cut off again, never twice
Inv_Distinct == \A i, j \in 1..Len(cursor.list) : i # j => cursor.list[i] # cursor.list[j]
\* the cursor is where the moves since the last absolute move left it
Abs(o) == o \in {"first", "last"}
RECURSIVE CurOf(_, _)
LenAfter(k) == LET RECURSIVE G(_, _)
                   G(i, s) == IF i > k THEN Len(s.list) ELSE G(i + 1, CursorApply(s, hist[i]))
               IN  G(1, EmptyList)
CurOf(k, d) == IF k = 0 THEN d
  ELSE CASE hist[k][1] = "first" -> d
         [] hist[k][1] = "last"  -> LenAfter(k - 1) - 1 + d
         [] hist[k][1] = "next"  -> CurOf(k - 1, d + 1)
         [] hist[k][1] = "prev"  -> CurOf(k - 1, d - 1)
         [] OTHER -> CurOf(k - 1, d)
Inv_Cursor == cursor.cur = CurOf(Len(hist), 0)
\* reading never changes anything; peeking in one direction mirrors peeking in the other
Quiet == [][\A op \in Ops : (op[1] \in Reads /\ hist' = Append(hist, op)) => UNCHANGED cursor]_vars
Inv_Mirror == \A a \in Args : CursorReturns(cursor, <<"peekNext", a, 0>>) = CursorReturns(cursor, <<"peekPrev", -a, 0>>)
Inv_PeekIsMove == CursorReturns(cursor, <<"peekNext", 1, 0>>) = CursorReturns(cursor, <<"next", 0, 0>>)
              /\ CursorReturns(cursor, <<"peekPrev", 1, 0>>) = CursorReturns(cursor, <<"prev", 0, 0>>)
\* behaviours handed to the implementation: all histories of full length
Emitted == (Emit /\ Len(hist) = MaxOps) => Emission(hist)
=============================================================================
