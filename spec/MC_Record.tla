------------------------------ MODULE MC_Record ------------------------------
EXTENDS F15Record, F15Report
CONSTANTS MaxOps, Emit, Few
VARIABLES held, hist
vars == <<held, hist>>
Pick(o) == IF Few THEN Range(ValuesOf(o)) \cap {"name", "speed", "break", "stay", "lat", "base"} ELSE Range(ValuesOf(o))
Given(v) == IF v = "stay" THEN {"0130", "2359"} ELSE {"x", "y"}
Ops == UNION {{<<o, "make", p, "m">> : p \in IF Few THEN {"name", "back"} ELSE DOMAIN Places} \cup {<<o, "set", v, x>> : <<v, x>> \in {<<w, y>> \in Pick(o) \X {"x", "y", "0130", "2359"} : y \in Given(w)}}
              \cup {<<o, "append", v, x>> : v \in Pick(o) \cap {"break", "error"}, x \in {"p", "q"}} : o \in 1..4}
Init == held = Objects /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E op \in Ops : held' = RecordApply(held, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
\* Independent of the machine: what a getter must say is decided by the last operation that gave the value, and what was appended since.
Gave(op, o, v) == op[1] = o /\ (op[2] = "make" \/ (op[2] = "set" /\ op[3] = v))
Since(o, v) == LET R == {i \in 1..Len(hist) : Gave(hist[i], o, v)} IN IF R = {} THEN 0 ELSE CHOOSE i \in R : \A j \in R : j <= i
Start(o, v) == LET i == Since(o, v) IN
   IF i = 0 THEN Fresh(o, "", "name")[v] ELSE IF hist[i][2] = "make" THEN Fresh(o, hist[i][4], hist[i][3])[v]
   ELSE IF v = "stay" THEN (IF hist[i][4] = "0130" THEN "90" ELSE "1439") ELSE hist[i][4]
Added(o, v) == SelectSeq(SubSeq(hist, Since(o, v) + 1, Len(hist)), LAMBDA op : op[1] = o /\ op[2] = "append" /\ op[3] = v)
Inv_C27 == \A o \in 1..4 : \A v \in Pick(o) :
   held[o][v] = Join((IF Start(o, v) = "" THEN <<>> ELSE <<Start(o, v)>>) \o [i \in 1..Len(Added(o, v)) |-> Added(o, v)[i][4]])
\* One operation changes at most one object, and a set or append at most one of its values.
Frame == [][\A op \in Ops : (hist' = Append(hist, op)) =>
   /\ \A o \in 1..4 : o # op[1] => held'[o] = held[o]
   /\ op[2] # "make" => \A v \in Range(ValuesOf(op[1])) : v # op[3] => held'[op[1]][v] = held[op[1]][v]]_vars
Emitted == (Emit /\ Len(hist) = MaxOps) => Emission(hist)
=============================================================================
