------------------------------ MODULE F15Props ------------------------------
(***************************************************************************)
(* The listed properties, stated declaratively over a token list and the   *)
(* machine state m, without following how the machine computes it.         *)
(* X_Step are invariants of every state, X of every final state.           *)
(***************************************************************************)
EXTENDS F15Parser, F15Fits

N(toks) == Len(toks)
IsFinal(m) == m.node = "Final"
Elems(m) == {j \in 1..Len(m.ers) : m.ers[j].i > 0}        \* without ADEP, ADES
Inside(m) == 2..(Len(m.ers) - 1)

SuppliedBy(toks, m, j) == toks[m.ers[j].i]
ErrTokens(m) == {m.errs[x][1] : x \in 1..Len(m.errs)}
ErrAt(m, k) == {m.errs[x][2] : x \in {y \in 1..Len(m.errs) : m.errs[y][1] = k}}
RecTokens(m) == {m.ers[j].i : j \in Elems(m)}
BreakTokens(m) == UNION {{m.ers[j].bt[x] : x \in 1..Len(m.ers[j].bt)} : j \in 1..Len(m.ers)}

\* Type invariant of every state
TypeOK(toks, m) ==
  /\ m.node \in Nodes
  /\ m.i \in 1..(N(toks) + 1)
  /\ Len(m.ers) >= 1
  /\ \A j \in 1..Len(m.ers) : LET r == m.ers[j] IN
       /\ r.i \in 0..N(toks) /\ r.rules \in {"", "IFR", "VFR", "OAT", "IFPS"}
       /\ r.az \in 0..N(toks) /\ r.stay \in 0..1439
       /\ \A x \in 1..Len(r.bt) : r.bt[x] \in 1..N(toks)
  /\ \A x \in 1..Len(m.errs) : m.errs[x][1] \in 0..N(toks)

\* C03 --------------------------------------------------------------------
P_Frame(toks, m) == IsFinal(m) =>
  /\ m.ers[1].n = "ADEP" /\ m.ers[1].i = 0
  /\ m.ers[Len(m.ers)].n = "ADES" /\ m.ers[Len(m.ers)].i = 0
  /\ Len(m.ers) >= 2
  /\ \A j \in Inside(m) : m.ers[j].i > 0
  /\ (N(toks) = 0) => (m.errs = <<<<0, 41>>>> /\ Len(m.ers) = 2 /\ m.der = "")
\* Progress: the number of steps left is bounded: no node is revisited at the same token
Rank(toks, m) ==       \* decreases with every step
  LET sub == CASE m.node = "Final" -> 0 [] m.node = "Done" -> 1 [] OTHER -> 2
  IN  3 * (N(toks) + 1 - m.i) + sub

\* C04 --------------------------------------------------------------------
P_Verdict(toks, m) == IsFinal(m) => (m.ok <=> m.errs = <<>>)
P_ErrorOrder(toks, m) ==
  \A x \in 1..(Len(m.errs) - 1) : m.errs[x][1] <= m.errs[x + 1][1]

\* C05: grammar, stated as local conditions on an error free parse ----------
\* In an error free field every token is what its predecessor allows.
FieldStarters == {"SPEED_ALTITUDE", "SPEED_VFR"}
InBreak(m, k) == k \in BreakTokens(m)
Pair(toks, m, k) ==      \* tokens k, k+1 outside break text of an error free field
  LET a == B(toks, k)  b == B(toks, k + 1) IN
  CASE b = "SLASH" -> \/ a \in {"POINT", "C", "STAY"}
                      \/ a \in Modifiers \ {"SPEED_VFR"} /\ k > 1 /\ B(toks, k - 1) = "SLASH"
    [] a = "ROUTE" -> b \in {"POINT", "TRUNCATE", "C"}
    [] a = "DCT"   -> b \in {"POINT", "TRUNCATE", "C"}
    [] a = "TRUNCATE" -> FALSE
    [] a = "SLASH" -> b \in {"SPEED_ALTITUDE", "SPEED_VFR", "SPEED_ALTITUDE_ALTITUDE",
                             "SPEED_ALTITUDE_PLUS", "STAY_TIME", "POINT", "C"}
    [] a = "STAY"  -> FALSE
    [] b \in Modifiers -> FALSE                      \* only after '/'
    [] b = "STAY_TIME" -> FALSE
    [] OTHER -> TRUE
P_CleanGrammar(toks, m) == (IsFinal(m) /\ m.errs = <<>>) =>
  /\ B(toks, 1) \in FieldStarters
  /\ \A k \in 1..N(toks) : (~ InBreak(m, k)) => B(toks, k) \notin {"UNKNOWN", "TOO_LONG"}
  /\ \A k \in 1..(N(toks) - 1) :
       (~ InBreak(m, k) /\ ~ InBreak(m, k + 1)) => Pair(toks, m, k)
  \* the kinds of error that must be reported whenever they occur
P_GarbageReported(toks, m) == IsFinal(m) =>
  \A k \in 1..N(toks) : (B(toks, k) \in {"UNKNOWN", "TOO_LONG"} /\ ~ InBreak(m, k)) => k \in ErrTokens(m)
\* Every message is true (F15Fits).
\* the subtype of the last element before token k
KindBefore(m, k) == LET S == {j \in 1..Len(m.ers) : m.ers[j].i < k /\ (m.ers[j].i > 0 \/ j = 1)} IN
                    m.ers[CHOOSE j \in S : \A x \in S : x <= j].u
P_Messages(toks, m) == \A x \in 1..Len(m.errs) : Fits(toks, IF m.errs[x][1] = 0 THEN "" ELSE KindBefore(m, m.errs[x][1]), m.errs[x][1], m.errs[x][2])

\* C06 --------------------------------------------------------------------
P_RouteOrder(toks, m) ==
  LET s == [x \in 1..Cardinality(Elems(m)) |-> m.ers[x + 1].i] IN
  \A x \in 1..(Len(s) - 1) : s[x] < s[x + 1]
P_OwnToken(toks, m) == \A j \in Elems(m) : LET r == m.ers[j]  k == SuppliedBy(toks, m, j) IN
  /\ r.n = (IF k.k.b = "SPEED_VFR" THEN "VFR" ELSE k.t)
  /\ k.k.b \in {"POINT", "C", "ROUTE", "DCT", "SID", "STAR", "SID_STAR", "BREAK_START", "SPEED_VFR"}
  /\ (r.b = k.k.b /\ r.u = k.k.u) \/ k.k.b \in {"SID", "STAR", "SID_STAR"}

\* C07 --------------------------------------------------------------------
Structural == {"SLASH", "C", "TRUNCATE", "BREAK_END"}
Applied == Modifiers \cup {"STAY", "STAY_TIME"}
Accounted(toks, m) == RecTokens(m) \cup BreakTokens(m) \cup ErrTokens(m)
P_NothingLost(toks, m) == IsFinal(m) => \A k \in 1..N(toks) :
  k \in Accounted(toks, m) \/ B(toks, k) \in Structural \cup Applied
P_NothingTwice(toks, m) == RecTokens(m) \cap BreakTokens(m) = {}

\* C08 --------------------------------------------------------------------
\* A modifier is in force when it is not break text and not rejected by a grammar error.
\* (34 and 49 complain about the token's context, 40 about its value; it still applies.)
InForce(toks, m) ==
  {k \in 1..N(toks) : /\ B(toks, k) \in Modifiers /\ ~ InBreak(m, k) /\ ErrAt(m, k) \subseteq {34, 40, 49}}
Latest(S) == CHOOSE x \in S : \A y \in S : y <= x
P_CarryForward(toks, m) == IsFinal(m) => \A j \in 1..(Len(m.ers) - 1) :
  LET r == m.ers[j]
      nxt == IF j = Len(m.ers) - 1 THEN N(toks) + 1
             ELSE m.ers[j + 1].i + (IF m.ers[j + 1].b = "SPEED_VFR" THEN 1 ELSE 0)
      S == {k \in InForce(toks, m) : k < nxt}
  IN  IF S = {} THEN r.sp = "" /\ r.al = ""
      ELSE r.sp = toks[Latest(S)].k.sp /\ r.al = toks[Latest(S)].k.al
P_AdesBare(toks, m) == IsFinal(m) => m.ers[Len(m.ers)].sp = "" /\ m.ers[Len(m.ers)].al = ""

\* C10 --------------------------------------------------------------------
P_Rules(toks, m) == \A j \in Elems(m) : LET r == m.ers[j]  t == SuppliedBy(toks, m, j) IN
  CASE t.k.b = "POINT" -> IF m.node \in {"PostCruisePoint", "PostCruiseSlash"} \/ ErrTokens(m) # {}
                          THEN TRUE ELSE r.rules = "IFR"
    [] t.k.b = "ROUTE" -> r.rules = "IFR"
    [] t.k.b = "SPEED_VFR" -> r.rules \in {"VFR"} \cup (IF ErrTokens(m) # {} THEN {"IFR"} ELSE {})
    [] t.k.b = "BREAK_START" /\ ErrTokens(m) = {} -> r.rules = BreakRules(t.k.u)
    [] OTHER -> m.ers[j].rules \in {m.ers[j - 1].rules, "IFR", "VFR", "OAT", "IFPS"}
\* The rules of an element follow from its kind and the elements before it alone: points and routes
\* are IFR, a section start has its own, everything else takes over those of the element before -
\* unless a speed/level was applied to it, which makes it IFR.  (A cruise climb point is a point
\* once its speed and levels are there; until then, and for good when they are missing, it is like C.)
PlainApplied(toks, m, j) ==
  LET nxt == IF j = Len(m.ers) \/ m.ers[j + 1].i = 0 THEN N(toks) + 1 ELSE m.ers[j + 1].i IN
  \E k \in InForce(toks, m) : B(toks, k) # "SPEED_VFR" /\ m.ers[j].i < k /\ k < nxt /\ k < m.i
ClimbPoint(toks, m, k) == /\ k > 2 /\ B(toks, k - 1) = "SLASH" /\ B(toks, k - 2) = "C"
                          /\ ~ InBreak(m, k - 2) /\ k - 2 \notin RecTokens(m) \cup ErrTokens(m)
P_SectionRules(toks, m) == \A j \in Elems(m) : LET r == m.ers[j]  b == B(toks, r.i) IN
  r.rules = (CASE PlainApplied(toks, m, j) -> "IFR"
               [] b = "ROUTE" -> "IFR"
               [] b = "SPEED_VFR" -> "VFR"
               [] b = "BREAK_START" -> BreakRules(U(toks, r.i))
               [] b = "POINT" /\ ~ ClimbPoint(toks, m, r.i) -> "IFR"
               [] OTHER -> m.ers[j - 1].rules)
P_AdepRules(toks, m) == (IsFinal(m) /\ N(toks) > 0 /\ B(toks, 1) \in FieldStarters) =>
  m.ers[1].rules = (IF B(toks, 1) = "SPEED_VFR" THEN "VFR" ELSE "IFR")
P_AdesRules(toks, m) == IsFinal(m) => m.ers[Len(m.ers)].rules = m.ers[Len(m.ers) - 1].rules

\* C11 --------------------------------------------------------------------
SomeRules(m, x) == \E j \in 1..Len(m.ers) : m.ers[j].rules = x
P_Derived(toks, m) == (IsFinal(m) /\ N(toks) > 0) =>
  LET v == B(toks, 1) = "SPEED_VFR" IN
  /\ m.der = "V" <=> (v /\ ~ SomeRules(m, "IFR"))
  /\ m.der = "Z" <=> (v /\ SomeRules(m, "IFR"))
  /\ m.der = "I" <=> (~ v /\ ~ SomeRules(m, "VFR"))
  /\ m.der = "Y" <=> (~ v /\ SomeRules(m, "VFR"))

\* C12, C25 -----------------------------------------------------------------
LocErrs == {42, 43, 44, 45, 46}
P_Located(toks, m) == \A j \in 1..Len(m.ers) : LET r == m.ers[j] IN
  r.pos <=> /\ r.i > 0 /\ r.u \in {"LL_DEG", "LL_MIN", "LLBD_DEG", "LLBD_MIN"}
            /\ ErrAt(m, r.i) \cap LocErrs = {}

\* C13 --------------------------------------------------------------------
NextLocated(m, j) ==      \* index of the element j's azimuth is measured to, 0 if none
  LET n == Len(m.ers) IN
  IF ~ m.ers[j].pos THEN 0
  ELSE IF j + 1 <= n /\ m.ers[j + 1].pos THEN j + 1
  ELSE IF j + 2 <= n /\ m.ers[j + 2].pos /\ m.ers[j + 1].b \notin {"POINT", "C"} THEN j + 2
  ELSE 0
P_Azimuth(toks, m) == \A j \in 1..Len(m.ers) :
  LET x == NextLocated(m, j) IN
  m.ers[j].az = IF x = 0 THEN 0 ELSE m.ers[x].i

\* C14 --------------------------------------------------------------------
P_Cruise(toks, m) == IsFinal(m) => \A j \in 1..Len(m.ers) : LET r == m.ers[j] IN
  (r.ct # "") => \E k \in InForce(toks, m) : toks[k].k.ct = r.ct
P_CruiseClean(toks, m) == (IsFinal(m) /\ m.errs = <<>>) => \A j \in Elems(m) : LET k == m.ers[j].i IN
  /\ (m.ers[j].ct # "") <=>
       /\ k + 2 <= N(toks) /\ B(toks, k + 2) \in {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"}
       /\ B(toks, k + 1) = "SLASH" /\ k > 2 /\ B(toks, k - 1) = "SLASH" /\ B(toks, k - 2) = "C"
  /\ (m.ers[j].ct # "") => /\ m.ers[j].ct = toks[k + 2].k.ct
                           /\ m.ers[j].al = toks[k + 2].k.al /\ m.ers[j].sp = toks[k + 2].k.sp

\* C15 --------------------------------------------------------------------
P_Stay(toks, m) == IsFinal(m) => \A j \in 1..Len(m.ers) : LET r == m.ers[j] IN
  (r.stay > 0) => \E k \in 3..N(toks) :
     /\ B(toks, k) = "STAY_TIME" /\ toks[k].k.mins = r.stay
     /\ B(toks, k - 1) = "SLASH" /\ B(toks, k - 2) = "STAY" /\ k > r.i
     /\ (j < Len(m.ers) - 1 => k < m.ers[j + 1].i)
P_StayClean(toks, m) == (IsFinal(m) /\ m.errs = <<>>) => \A k \in 1..N(toks) :
  (B(toks, k) = "STAY" /\ ~ InBreak(m, k)) =>
    /\ k + 2 <= N(toks) /\ B(toks, k + 1) = "SLASH" /\ B(toks, k + 2) = "STAY_TIME"
    /\ \E j \in Elems(m) : m.ers[j].i < k /\ m.ers[j].stay = toks[k + 2].k.mins

\* C16 --------------------------------------------------------------------
P_SidStar(toks, m) == \A j \in Elems(m) : LET r == m.ers[j]  t == SuppliedBy(toks, m, j) IN
  /\ (r.b = "SID" /\ t.k.b # "SID") => j = 2
  /\ (r.b = "STAR" /\ t.k.b # "STAR") => r.i = N(toks)
  /\ t.k.b \in {"SID", "STAR", "SID_STAR"} =>
       CASE t.k.b = "SID" -> (j = 2 \/ 30 \in ErrAt(m, r.i))
         [] t.k.b = "STAR" -> (r.i = N(toks) \/ 34 \in ErrAt(m, r.i + 1))
         [] OTHER -> \/ j = 2 /\ r.b = "SID" /\ r.u = "SID"
                     \/ r.i = N(toks) /\ r.b = "STAR" /\ r.u = "STAR"
                     \/ r.b = "SID_STAR" /\ 34 \in ErrAt(m, r.i + 1)

\* C24 --------------------------------------------------------------------
P_BreakText(toks, m) == \A j \in 1..Len(m.ers) : LET r == m.ers[j] IN
  \* break text is the uninterrupted run of tokens following its element
  /\ \A x \in 1..Len(r.bt) : r.bt[x] = r.i + x
  /\ r.bt # <<>> => toks[r.i].k.b \in {"BREAK_START", "SPEED_VFR"}
P_BreakEnds(toks, m) == IsFinal(m) => \A j \in Elems(m) : LET r == m.ers[j] IN
  \* nothing inside the text but the last word ends the section
  \A x \in 1..Len(r.bt) :
    (EndsBreak(U(toks, r.bt[x]), IF toks[r.i].k.b = "SPEED_VFR" THEN "VFR" ELSE BreakRules(toks[r.i].k.u))
       /\ BreakEndCase(toks, r.bt[x]) # "no")
    <=> (x = Len(r.bt) /\ r.bt[x] < N(toks) /\ B(toks, r.bt[x]) # "TOO_LONG")
=============================================================================
