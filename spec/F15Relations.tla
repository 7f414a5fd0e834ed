----------------------------- MODULE F15Relations -----------------------------
(***************************************************************************)
(* Properties that relate two parses: garbage locality (C17), layout       *)
(* invariance (C23), and the beginning of a longer field (C28).            *)
(***************************************************************************)
EXTENDS F15Parser

\* ------------------------------------------------- on the specification --
Without(T, k) == SubSeq(T, 1, k - 1) \o SubSeq(T, k + 1, Len(T))
InsertTok(T, k, g) == SubSeq(T, 1, k - 1) \o <<g>> \o SubSeq(T, k, Len(T))

\* The grammar node at which the token k of T is looked at; "none" when it is
\* consumed by a look-ahead.
RECURSIVE NodeFrom(_, _, _)
NodeFrom(T, m, k) == IF m.i = k /\ m.node # "Done" THEN m.node
                     ELSE IF m.i > k \/ m.node \in {"Done", "Final"} THEN "none"
                     ELSE CHOOSE r \in {NodeFrom(T, x, k) : x \in {Step(T, m)}} : TRUE
NodeAt(T, k) == NodeFrom(T, Start0, k)

\* Positions where an element may be inserted between two complete route elements: the
\* elements before it are complete there, and token k starts another one.
CompleteAt == {"PostAdep", "PostPoint", "PostSid", "PostDct", "PostRoute", "PostStayTime"}
ElementStart == {"POINT", "ROUTE", "DCT", "SID", "STAR", "SID_STAR", "BREAK_START", "C"}
IsGap(T, k) == k \in 2..Len(T) /\ B(T, k) \in ElementStart /\ NodeAt(T, k) \in CompleteAt

Shifted(i, k) == IF i >= k THEN i + 1 ELSE i
ShiftElem(r, k) == [r EXCEPT !.i = Shifted(@, k), !.az = Shifted(@, k), !.bt = [x \in 1..Len(@) |-> Shifted(@[x], k)]]
\* T2 is T1 with a token inserted at k
P_Local(m1, m2, k) ==
  /\ Len(m2.errs) = 1 /\ m2.errs[1][1] = k
  /\ m2.ers = [j \in 1..Len(m1.ers) |-> ShiftElem(m1.ers[j], k)]
  /\ m2.der = m1.der

\* The beginning of a field.  m1 is the parse of the first k tokens, m2 that of more.  What is settled
\* after k tokens: elements followed by another one, errors, and azimuths of elements followed by two,
\* as far as those stand before the last Reach of the k tokens: look-ahead and modifiers reach no further.
Reach == 2
SettledElems(m, k, reach) == {j \in 1..(Len(m.ers) - 2) : m.ers[j + 1].i <= k - reach}
SettledAzimuths(m, k, reach) == {j \in 1..(Len(m.ers) - 3) : m.ers[j + 2].i <= k - reach}
SettledErrors(m, k, reach) == SelectSeq(m.errs, LAMBDA x : x[1] > 0 /\ x[1] <= k - reach)
Core(r) == [r EXCEPT !.az = 0]
P_Begins(m1, m2, k, reach) ==
  /\ SettledElems(m1, k, reach) = SettledElems(m2, k, reach)
  /\ \A j \in SettledElems(m1, k, reach) : Core(m1.ers[j]) = Core(m2.ers[j])
  /\ SettledAzimuths(m1, k, reach) = SettledAzimuths(m2, k, reach)
  /\ \A j \in SettledAzimuths(m1, k, reach) : m1.ers[j].az = m2.ers[j].az
  /\ SettledErrors(m1, k, reach) = SettledErrors(m2, k, reach)

\* ------------------------------------------------------- on observations --
\* o2 must be o1 with the positions of T1's tokens replaced by those of T2's tokens, where
\* token i of T1 is token To(i) of T2.
Moved(T1, T2, r, To(_)) ==
  IF r[3] = 0 THEN r
  ELSE LET S == {i \in 1..Len(T1) : T1[i].s = r[2] /\ T1[i].e = r[3]}
       IN  IF S = {} THEN <<"no such token">>
           ELSE LET i == CHOOSE i \in S : TRUE IN [r EXCEPT ![2] = T2[To(i)].s, ![3] = T2[To(i)].e]
MovedAll(T1, T2, rs, To(_)) == [x \in 1..Len(rs) |-> Moved(T1, T2, rs[x], To)]
SameButMoved(T1, T2, o1, o2, To(_), name) ==
  (IF o1.x # "" \/ o2.x # "" THEN (IF o1.x = o2.x THEN {} ELSE {name \o ".raised"})
   ELSE  (IF MovedAll(T1, T2, o1.ers, To) = o2.ers THEN {} ELSE {name \o ".elements"})
   \cup  (IF MovedAll(T1, T2, o1.errs, To) = o2.errs THEN {} ELSE {name \o ".errors"})
   \cup  (IF o1.der = o2.der THEN {} ELSE {name \o ".derived"})
   \cup  (IF o1.ret = o2.ret THEN {} ELSE {name \o ".verdict"}))
DropAt(s, x) == SubSeq(s, 1, x - 1) \o SubSeq(s, x + 1, Len(s))
LocalObs(T1, T2, o1, o2, k) ==
  IF o2.x # "" THEN {"C17.raised-" \o o2.x}
  ELSE LET g == {x \in 1..Len(o2.errs) : o2.errs[x][1] = T2[k].t /\ o2.errs[x][2] = T2[k].s /\ o2.errs[x][3] = T2[k].e}
       IN  IF Cardinality(g) # 1 THEN {"C17.not-reported-once"}
           ELSE LET x == CHOOSE x \in g : TRUE
                IN  SameButMoved(T1, T2, [o1 EXCEPT !.ret = "F"], [o2 EXCEPT !.errs = DropAt(@, x)],
                                 LAMBDA i : Shifted(i, k), "C17")
\* o1 was recorded for the first k of T2's tokens (at the same positions), o2 for all of T2.
BeginsObs(T2, o1, o2, k) ==
  LET end == IF k > Reach THEN T2[k - Reach].e ELSE 0      \* what ends here or before is settled
      elems(o) == {j \in 1..(Len(o.ers) - 2) : o.ers[j + 1][3] <= end}
      azims(o) == {j \in 1..(Len(o.ers) - 3) : o.ers[j + 2][3] <= end}
      errs(o)  == SelectSeq(o.errs, LAMBDA x : x[3] > 0 /\ x[3] <= end)
      core(r)  == [r EXCEPT ![18] = "", ![19] = ""]
  IN  IF o1.x # "" \/ o2.x # "" THEN (IF o1.x = o2.x THEN {} ELSE {"C28.raised"})
      ELSE (IF elems(o1) = elems(o2) /\ \A j \in elems(o1) : core(o1.ers[j]) = core(o2.ers[j]) THEN {} ELSE {"C28.elements"})
      \cup (IF elems(o1) # elems(o2) \/ (azims(o1) = azims(o2) /\ \A j \in azims(o1) : o1.ers[j][18] = o2.ers[j][18] /\ o1.ers[j][19] = o2.ers[j][19])
            THEN {} ELSE {"C28.azimuth-distance"})
      \cup (IF errs(o1) = errs(o2) THEN {} ELSE {"C28.errors"})
=============================================================================
