------------------------------ MODULE MC_Store ------------------------------
EXTENDS F15Store, F15Report
CONSTANTS MaxOps, Indices, Names, Emit
VARIABLES store, hist, fresh
vars == <<store, hist, fresh>>
AllOps == UNION {
     {<<c, "append", fresh, "">>, <<c, "create", fresh, "">>, <<c, "append", 1, "">>, <<c, "create", 1, "">>, <<c, "ades", 0, "">>, <<c, "error", 1, "A!B">>, <<c, "error", 23, "X">>,
      <<c, "derived", 0, "Y">>, <<c, "renew", 0, "">>}
   \cup {<<c, o, 0, "">> : o \in {"first", "last", "before", "count", "errors", "all", "allErr", "rules"}}
   \cup {<<c, "at", i, "">> : i \in Indices} : c \in 1..2}
Ops == {op \in AllOps : op[2] \in Names}
Init == store = Stores /\ hist = <<>> /\ fresh = 1
Do(op) == store' = StoreApply(store, op) /\ hist' = Append(hist, op) /\ fresh' = fresh + 1
Next == Len(hist) < MaxOps /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
\* the count is one more than the additions since the container was made
Since(c) == LET R == {i \in 1..Len(hist) : hist[i][1] = c /\ hist[i][2] = "renew"}
            IN  IF R = {} THEN 0 ELSE CHOOSE i \in R : \A j \in R : j <= i
Additions(c, names) == {i \in (Since(c) + 1)..Len(hist) : hist[i][1] = c /\ hist[i][2] \in names}
Inv_Count == \A c \in 1..2 : /\ Len(store[c].recs) = 1 + Cardinality(Additions(c, {"append", "create", "ades"}))
                             /\ Len(store[c].errs) = Cardinality(Additions(c, {"error"}))
\* the elements are ADEP and what was added since, in that order: also the same record twice, or in both containers
RECURSIVE Added(_, _, _)
Added(c, i, acc) ==
   IF i > Len(hist) THEN acc
   ELSE LET op == hist[i] IN
        Added(c, i + 1, IF op[1] # c THEN acc
                        ELSE IF op[2] = "renew" THEN <<-1>>
                        ELSE IF op[2] \in {"append", "create"} THEN Append(acc, op[3])
                        ELSE IF op[2] = "ades" THEN Append(acc, -2) ELSE acc)
Inv_Order == \A c \in 1..2 : store[c].recs = Added(c, 1, <<-1>>)
Given(c) == {hist[i][3] : i \in {k \in 1..Len(hist) : hist[k][1] = c /\ hist[k][2] \in {"append", "create"}}}
Inv_NoSharing == \A c \in 1..2 : \A i \in 1..Len(store[c].recs) : store[c].recs[i] > 0 => store[c].recs[i] \in Given(c)
Inv_Bounds == \A c \in 1..2 : \A i \in Indices :
   (StoreReturns(store, <<c, "at", i, "">>) = None) <=> (i < 0 \/ i >= Len(store[c].recs))
Frame == [][\A op \in Ops : (hist' = Append(hist, op)) =>
              /\ store'[3 - op[1]] = store[3 - op[1]]
              /\ (op[2] \notin Updates => store' = store)
              /\ (op[2] = "error" => store'[op[1]].recs = store[op[1]].recs)]_vars
Emitted == (Emit /\ Len(hist) = MaxOps) => Emission(hist)
=============================================================================
