----------------------------- MODULE F15Parser -----------------------------
(***************************************************************************)
(* The field 15 parser as a state machine over a token list.               *)
(*                                                                         *)
(* toks : Seq of tokens [t, s, e, k]: text, position, kind (F15Syntax)     *)
(* m    : machine state                                                    *)
(*   node  the grammar node, i.e. what was read last / is expected next    *)
(*   i     index of the token to be looked at (Len(toks)+1 = end of field) *)
(*   ers   the extracted route so far, Seq of elements (see NewElem)       *)
(*   errs  the reported errors so far, Seq of <<token index, error number>>*)
(*   first "VFR" when the field began with a speed/VFR element             *)
(*   der, ok  derived flight rules and verdict, set by Finish              *)
(*                                                                         *)
(* One action per grammar node; each action looks at one token (the rule   *)
(* change look-ahead at up to four) and is a total function of the state.  *)
(***************************************************************************)
EXTENDS F15Syntax

NoElem == [i |-> 0, b |-> "POINT", u |-> "PRP_AERO", n |-> "", sp |-> "", al |-> "", ct |-> "",
           rules |-> "", bt |-> <<>>, stay |-> 0, pos |-> FALSE, az |-> 0]
Adep == [NoElem EXCEPT !.n = "ADEP"]
Ades == [NoElem EXCEPT !.n = "ADES"]

Start0 == [node |-> "Start", i |-> 1, ers |-> <<Adep>>, errs |-> <<>>, first |-> "", der |-> "", ok |-> TRUE]

LastElem(m) == m.ers[Len(m.ers)]
AtEnd(toks, m) == m.i > Len(toks)
B(toks, k) == toks[k].k.b
U(toks, k) == toks[k].k.u

Goto(m, node, i)   == [m EXCEPT !.node = node, !.i = i]
Stop(m)            == [m EXCEPT !.node = "Done"]
Err(m, k, e)       == [m EXCEPT !.errs = Append(@, <<k, e>>)]
ErrResync(m, k, e, next) == Goto(Err(m, k, e), "Resync", next)
Fail(m, e)         == ErrResync(m, m.i, e, m.i + 1)      \* the token looked at is wrong

RECURSIVE ErrAll(_, _, _)
ErrAll(m, k, es) == IF es = <<>> THEN m ELSE ErrAll(Err(m, k, Head(es)), k, Tail(es))

\* ------------------------------------------------------------- elements --
\* A new element takes speed, level and rules over from the element before it.
Add(toks, m, k) ==
  LET l == LastElem(m)
  IN  [m EXCEPT !.ers = Append(@, [NoElem EXCEPT !.i = k, !.n = toks[k].t,
         !.b = B(toks, k), !.u = U(toks, k), !.sp = l.sp, !.al = l.al, !.rules = l.rules])]
SetLast(m, f, v)  == [m EXCEPT !.ers[Len(m.ers)][f] = v]
Rules(m, r)       == SetLast(m, "rules", r)

\* Azimuth and distance: measured from the located element before (directly, or over one
\* element that is not itself a point) to the last element, when that is located.
IsPointLike(x) == x.b \in {"POINT", "C"}
Measure(m) ==
  LET n == Len(m.ers)  k == m.ers[n].i IN
  IF ~ m.ers[n].pos THEN m
  ELSE IF n >= 2 /\ m.ers[n - 1].pos THEN [m EXCEPT !.ers[n - 1].az = k]
  ELSE IF n >= 3 /\ ~ IsPointLike(m.ers[n - 1]) /\ m.ers[n - 2].pos
       THEN [m EXCEPT !.ers[n - 2].az = k]
  ELSE m

\* A point: its angles are checked, and it is located when they are all in range.
AddPoint(toks, m, k) ==
  LET kd == toks[k].k
      a  == ErrAll(Add(toks, m, k), k, kd.sem)
  IN  Measure(SetLast(a, "pos", kd.ll.has /\ kd.sem = <<>>))

Point(toks, m, k) == Goto(Rules(AddPoint(toks, m, k), "IFR"), "PostPoint", k + 1)
Route(toks, m, k) == Goto(Rules(Add(toks, m, k), "IFR"), "PostRoute", k + 1)
Dct(toks, m, k)   == Goto(Add(toks, m, k), "PostDct", k + 1)
Truncate(m, k)    == Goto(m, "PostTruncate", k + 1)
C(m, k)           == Goto(m, "CruiseC", k + 1)
Stay(m, k)        == Goto(m, "Stay", k + 1)

Retype(m, b, u)   == SetLast(SetLast(m, "b", b), "u", u)
Sid(toks, m, k) ==
  LET a == Add(toks, m, k) IN
  IF Len(a.ers) = 2
  THEN Goto(Retype(a, "SID", IF toks[k].t = "SID" THEN "SID_LITERAL" ELSE "SID"), "PostSid", k + 1)
  ELSE ErrResync(a, k, 30, k + 1)
LastIsStar(toks, a, k) ==
  IF k = Len(toks)
  THEN Stop(Retype(a, "STAR", IF toks[k].t = "STAR" THEN "STAR_LITERAL" ELSE "STAR"))
  ELSE ErrResync(a, k + 1, 34, k + 1)        \* what follows the STAR is reported
SidStar(toks, m, k) ==
  LET a == Add(toks, m, k) IN
  IF Len(a.ers) = 2 THEN Goto(Retype(a, "SID", "SID"), "PostSid", k + 1)
  ELSE LastIsStar(toks, a, k)
Star(toks, m, k) == LastIsStar(toks, Add(toks, m, k), k)

\* ------------------------------------------------------------ modifiers --
ApplyLevel(toks, m, k) ==
  LET kd == toks[k].k
      a  == ErrAll(m, k, kd.lev)
      b  == SetLast(SetLast(SetLast(a, "sp", kd.sp), "al", kd.al), "rules", "IFR")
  IN  IF kd.ct = "" THEN b ELSE SetLast(b, "ct", kd.ct)
SpeedLevel(toks, m, k) ==
  Goto(ApplyLevel(toks, m, k), IF Len(m.ers) = 1 THEN "PostAdep" ELSE "PostPoint", k + 1)
CruiseLevel(toks, m, k) == Goto(ApplyLevel(toks, m, k), "PostPoint", k + 1)

SpeedVfr(toks, m, k) ==
  LET kd == toks[k].k
      p  == SetLast(SetLast(m, "sp", kd.sp), "al", kd.al)          \* the point before it
      a  == Add(toks, p, k)
      v  == SetLast(SetLast(a, "n", "VFR"), "rules", "VFR")
  IN  Goto(v, "Break", k + 1)

\* ------------------------------------------------------- break sections --
BreakRules(u) == CASE u = "VFR" -> "VFR" [] u = "OAT" -> "OAT" [] u = "IFPSTOP" -> "IFPS"
EndsBreak(u, rules) ==
  <<u, rules>> \in {<<"IFR", "VFR">>, <<"GAT", "OAT">>, <<"IFPSTART", "IFPS">>}
BreakStart(toks, m, k) ==
  Goto(Rules(Add(toks, m, k), BreakRules(U(toks, k))), "BreakFirst", k + 1)
BreakEndError(toks, m, k) ==
  Fail(m, CASE U(toks, k) = "IFR" -> 6 [] U(toks, k) = "GAT" -> 7 [] U(toks, k) = "IFPSTART" -> 8)

\* What the break end keyword at k leads to: "no" change, "bad" (incomplete), "point" or "rules".
BreakEndCase(toks, k) ==
  LET n == Len(toks) IN
  IF k + 1 > n THEN "no"
  ELSE IF B(toks, k + 1) # "POINT" THEN "no"
  ELSE IF U(toks, k) # "IFR" THEN "point"
  ELSE IF k + 2 > n THEN "bad"
  ELSE IF B(toks, k + 2) # "SLASH" THEN "no"
  ELSE IF k + 3 > n THEN "bad"
  ELSE IF B(toks, k + 3) \notin {"SPEED_ALTITUDE", "SPEED_VFR"} THEN "bad"
  ELSE "rules"
BreakEnd(toks, m, k, otherwise) ==
  LET c == BreakEndCase(toks, k) IN
  CASE c = "no"    -> otherwise
    [] c = "bad"   -> ErrResync(m, k + 1, 22, k + 1)
    [] c = "point" -> Point(toks, m, k + 1)
    [] c = "rules" -> LET p == Rules(AddPoint(toks, m, k + 1), "IFR")
                      IN  IF B(toks, k + 3) = "SPEED_VFR" THEN SpeedVfr(toks, p, k + 3)
                          ELSE SpeedLevel(toks, p, k + 3)

BreakWord(toks, m) ==
  LET k == m.i
      a == SetLast(m, "bt", Append(LastElem(m).bt, k))
  IN  IF B(toks, k) = "TOO_LONG" THEN ErrResync(a, k, 4, k + 1)
      ELSE IF EndsBreak(U(toks, k), LastElem(m).rules)
           THEN BreakEnd(toks, a, k, Goto(a, "Break", k + 1))
      ELSE Goto(a, "Break", k + 1)

\* ---------------------------------------------------------- the actions --
StartNode(toks, m) ==
  IF Len(toks) = 0 THEN Stop(Err(m, 0, 41))
  ELSE CASE B(toks, 1) = "SPEED_VFR"      -> [SpeedVfr(toks, m, 1) EXCEPT !.first = "VFR"]
         [] B(toks, 1) = "SPEED_ALTITUDE" ->
              LET a == SpeedLevel(toks, m, 1)
              IN  IF Len(toks) = 1 THEN Stop(Err(a, 1, 49)) ELSE a
         [] OTHER -> Fail(m, 1)

PostAdepNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(m) ELSE LET k == m.i  b == B(toks, k) IN
  CASE b = "UNKNOWN" -> Fail(m, 3)
    [] b \in {"SLASH", "BREAK_START", "SPEED_VFR", "SPEED_ALTITUDE", "BREAK_END", "STAY", "C"} -> Fail(m, 23)
    [] b = "DCT" -> Dct(toks, m, k)
    [] b = "TRUNCATE" -> Truncate(m, k)
    [] b = "POINT" -> Point(toks, m, k)
    [] b = "ROUTE" -> Fail(m, 24)
    [] b = "SID_STAR" -> SidStar(toks, m, k)
    [] b \in {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"} -> Fail(m, 9)
    [] b = "TOO_LONG" -> Fail(m, 4)
    [] b = "STAY_TIME" -> Fail(m, 10)
    [] b = "SID" -> Sid(toks, m, k)
    [] b = "STAR" -> Star(toks, m, k)

PostPointNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(m) ELSE LET k == m.i  b == B(toks, k) IN
  CASE b = "UNKNOWN" -> Fail(m, 3)
    [] b = "SLASH" -> Goto(m, "Slash", k + 1)
    [] b = "BREAK_START" -> BreakStart(toks, m, k)
    [] b \in {"SPEED_VFR", "SPEED_ALTITUDE"} -> Fail(m, 5)
    [] b = "BREAK_END" -> BreakEndError(toks, m, k)
    [] b = "DCT" -> Dct(toks, m, k)
    [] b = "STAY" -> Stay(m, k)
    [] b = "TRUNCATE" -> Truncate(m, k)
    [] b = "C" -> C(m, k)
    [] b = "POINT" -> Point(toks, m, k)
    [] b = "ROUTE" -> IF LastElem(m).u \in LatLongKinds THEN Fail(m, 47) ELSE Route(toks, m, k)
    [] b = "SID_STAR" -> SidStar(toks, m, k)
    [] b \in {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"} -> Fail(m, 9)
    [] b = "TOO_LONG" -> Fail(m, 4)
    [] b = "STAY_TIME" -> Fail(m, 10)
    [] b = "SID" -> Sid(toks, m, k)
    [] b = "STAR" -> Star(toks, m, k)

PostSidNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(m) ELSE LET k == m.i  b == B(toks, k) IN
  CASE b = "TRUNCATE" -> Truncate(m, k)
    [] b = "POINT" -> Point(toks, m, k)
    [] b = "ROUTE" -> Route(toks, m, k)
    [] b = "SID_STAR" -> SidStar(toks, m, k)
    [] b = "TOO_LONG" -> Fail(m, 4)
    [] b = "SID" -> Fail(m, 32)
    [] b = "STAR" -> Star(toks, m, k)
    [] OTHER -> Fail(m, 31)

PostDctNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(m) ELSE LET k == m.i  b == B(toks, k) IN
  CASE b = "TRUNCATE" -> Truncate(m, k)
    [] b = "POINT" -> Point(toks, m, k)
    [] b = "C" -> C(m, k)
    [] OTHER -> Fail(m, 21)

PostRouteNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(m) ELSE LET k == m.i  b == B(toks, k) IN
  CASE b = "UNKNOWN" -> Fail(m, 3)
    [] b = "SLASH" -> Fail(m, 12)
    [] b \in {"BREAK_START", "SPEED_VFR"} -> Fail(m, 13)
    [] b = "SPEED_ALTITUDE" -> Fail(m, 55)
    [] b = "BREAK_END" -> BreakEndError(toks, m, k)
    [] b = "DCT" -> Fail(m, 14)
    [] b = "STAY" -> Fail(m, 15)
    [] b = "TRUNCATE" -> Truncate(m, k)
    [] b = "C" -> C(m, k)
    [] b = "POINT" -> Point(toks, IF U(toks, k) \in LatLongKinds THEN Err(m, k, 48) ELSE m, k)
    [] b = "ROUTE" -> Fail(m, 53)
    [] b \in {"SID_STAR", "STAR"} -> Fail(m, 54)
    [] b \in {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"} -> Fail(m, 9)
    [] b = "TOO_LONG" -> Fail(m, 4)
    [] b = "STAY_TIME" -> Fail(m, 10)
    [] b = "SID" -> Fail(m, 30)

PostTruncateNode(toks, m) == IF AtEnd(toks, m) THEN Stop(m) ELSE Fail(m, 19)

SlashNode(toks, m) ==       \* the token before is a '/' after a point
  IF AtEnd(toks, m) THEN Stop(Err(m, m.i - 1, 20)) ELSE LET k == m.i  b == B(toks, k) IN
  CASE b = "UNKNOWN" -> Fail(m, 3)
    [] b = "SLASH" -> Fail(m, 16)
    [] b = "SPEED_VFR" -> SpeedVfr(toks, m, k)
    [] b = "SPEED_ALTITUDE" -> SpeedLevel(toks, m, k)
    [] b = "TOO_LONG" -> Fail(m, 4)
    [] OTHER -> Fail(m, 50)

StayNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(Err(m, m.i - 1, 35))
  ELSE IF B(toks, m.i) # "SLASH" THEN Fail(m, 36) ELSE Goto(m, "StaySlash", m.i + 1)
StaySlashNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(Err(m, m.i - 1, 37))
  ELSE IF B(toks, m.i) # "STAY_TIME" THEN Fail(m, 38)
  ELSE Goto(SetLast(m, "stay", toks[m.i].k.mins), "PostStayTime", m.i + 1)
PostStayTimeNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(m) ELSE LET k == m.i  b == B(toks, k) IN
  CASE b = "UNKNOWN" -> Fail(m, 3)
    [] b = "BREAK_START" -> BreakStart(toks, m, k)
    [] b = "BREAK_END" -> BreakEndError(toks, m, k)
    [] b = "DCT" -> Dct(toks, m, k)
    [] b = "TRUNCATE" -> Truncate(m, k)
    [] b = "C" -> C(m, k)
    [] b = "POINT" -> Point(toks, m, k)
    [] b = "ROUTE" -> Route(toks, m, k)
    [] b = "SID_STAR" -> SidStar(toks, m, k)
    [] b = "TOO_LONG" -> Fail(m, 4)
    [] b = "SID" -> Sid(toks, m, k)
    [] b = "STAR" -> Star(toks, m, k)
    [] OTHER -> Fail(m, 39)

CruiseCNode(toks, m) ==     \* the token before is a C: cruise climb indicator or one-letter point
  LET a == Add(toks, m, m.i - 1) IN
  IF AtEnd(toks, m) THEN Stop(a) ELSE LET k == m.i  b == B(toks, k) IN
  CASE b = "UNKNOWN" -> Fail(m, 3)
    [] b = "SLASH" -> Goto(m, "CruiseSlash", k + 1)
    [] b = "BREAK_START" -> BreakStart(toks, a, k)
    [] b \in {"SPEED_VFR", "SPEED_ALTITUDE"} -> Fail(m, 5)
    [] b = "BREAK_END" -> BreakEndError(toks, m, k)
    [] b = "DCT" -> Dct(toks, a, k)
    [] b = "STAY" -> Stay(a, k)
    [] b = "TRUNCATE" -> Truncate(a, k)
    [] b = "C" -> C(a, k)
    [] b = "POINT" -> Point(toks, a, k)
    [] b = "ROUTE" -> Route(toks, a, k)
    [] b = "SID_STAR" -> SidStar(toks, a, k)
    [] b \in {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"} -> Fail(m, 9)
    [] b = "TOO_LONG" -> Fail(m, 4)
    [] b = "STAY_TIME" -> Fail(m, 10)
    [] b = "SID" -> Sid(toks, a, k)
    [] b = "STAR" -> Star(toks, a, k)
CruiseSlashNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(Err(Add(toks, m, m.i - 2), m.i - 1, 52))
  ELSE LET b == B(toks, m.i) IN
  CASE b \in {"POINT", "C"} -> Goto(AddPoint(toks, m, m.i), "PostCruisePoint", m.i + 1)
    [] b = "UNKNOWN" -> Fail(m, 3)
    [] b = "TOO_LONG" -> Fail(m, 4)
    [] OTHER -> Fail(m, 18)
PostCruisePointNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(Err(m, m.i - 1, 27))
  ELSE IF B(toks, m.i) # "SLASH" THEN Fail(m, 26) ELSE Goto(m, "PostCruiseSlash", m.i + 1)
PostCruiseSlashNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(Err(m, m.i - 2, 28))
  ELSE IF B(toks, m.i) \in {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"}
       THEN CruiseLevel(toks, m, m.i)
  ELSE Fail(m, 29)

BreakFirstNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(m)
  ELSE IF B(toks, m.i) = "TOO_LONG" THEN Fail(m, 4) ELSE BreakWord(toks, m)
BreakNode(toks, m) == IF AtEnd(toks, m) THEN Stop(m) ELSE BreakWord(toks, m)

ResyncNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(m) ELSE LET k == m.i  b == B(toks, k) IN
  CASE b = "UNKNOWN" -> Fail(m, 3)
    [] b = "SLASH" -> Goto(m, "ResyncSlash", k + 1)
    [] b = "BREAK_START" -> BreakStart(toks, m, k)
    [] b = "SPEED_VFR" -> SpeedVfr(toks, m, k)
    [] b = "BREAK_END" -> BreakEnd(toks, m, k, Goto(m, "Resync", k + 1))
    [] b = "DCT" -> Dct(toks, m, k)
    [] b = "STAY" -> Stay(m, k)
    [] b = "TRUNCATE" -> Truncate(m, k)
    [] b = "C" -> C(m, k)
    [] b = "POINT" -> Point(toks, m, k)
    [] b = "ROUTE" -> Route(toks, m, k)
    [] b = "SID_STAR" -> SidStar(toks, m, k)
    [] b = "SPEED_ALTITUDE" -> SpeedLevel(toks, m, k)
    [] b \in {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"} -> CruiseLevel(toks, m, k)
    [] b = "TOO_LONG" -> Fail(m, 4)
    [] b = "STAY_TIME" -> Fail(m, 10)
    [] b = "SID" -> Sid(toks, m, k)
    [] b = "STAR" -> Star(toks, m, k)
ResyncSlashNode(toks, m) ==
  IF AtEnd(toks, m) THEN Stop(Err(m, m.i - 1, 25)) ELSE LET k == m.i  b == B(toks, k) IN
  CASE b = "SPEED_VFR" -> SpeedVfr(toks, m, k)
    [] b = "POINT" -> Point(toks, m, k)
    [] b = "SPEED_ALTITUDE" -> SpeedLevel(toks, m, k)
    [] b \in {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"} -> CruiseLevel(toks, m, k)
    [] OTHER -> Fail(m, 11)

\* ADES is appended, the derived rules and the verdict are determined.
DerivedRules(first, ers) ==
  LET some(r) == \E i \in 1..Len(ers) : ers[i].rules = r IN
  IF first = "VFR" THEN (IF some("IFR") THEN "Z" ELSE "V")
  ELSE (IF some("VFR") THEN "Y" ELSE "I")
FinishNode(toks, m) ==
  LET a == IF m.first = "VFR" THEN [m EXCEPT !.ers[1].rules = "VFR"] ELSE m
      e == Append(a.ers, [Ades EXCEPT !.rules = IF Len(toks) = 0 THEN "" ELSE LastElem(a).rules])
  IN  [a EXCEPT !.node = "Final", !.ers = e, !.ok = (m.errs = <<>>),
                !.der = IF Len(toks) = 0 THEN "" ELSE DerivedRules(e[1].rules, e)]

Nodes == {"Start", "PostAdep", "PostPoint", "PostSid", "PostDct", "PostRoute", "PostTruncate", "Slash",
          "Stay", "StaySlash", "PostStayTime", "CruiseC", "CruiseSlash", "PostCruisePoint",
          "PostCruiseSlash", "BreakFirst", "Break", "Resync", "ResyncSlash", "Done", "Final"}

Step(toks, m) ==
  CASE m.node = "Start" -> StartNode(toks, m)
    [] m.node = "PostAdep" -> PostAdepNode(toks, m)
    [] m.node = "PostPoint" -> PostPointNode(toks, m)
    [] m.node = "PostSid" -> PostSidNode(toks, m)
    [] m.node = "PostDct" -> PostDctNode(toks, m)
    [] m.node = "PostRoute" -> PostRouteNode(toks, m)
    [] m.node = "PostTruncate" -> PostTruncateNode(toks, m)
    [] m.node = "Slash" -> SlashNode(toks, m)
    [] m.node = "Stay" -> StayNode(toks, m)
    [] m.node = "StaySlash" -> StaySlashNode(toks, m)
    [] m.node = "PostStayTime" -> PostStayTimeNode(toks, m)
    [] m.node = "CruiseC" -> CruiseCNode(toks, m)
    [] m.node = "CruiseSlash" -> CruiseSlashNode(toks, m)
    [] m.node = "PostCruisePoint" -> PostCruisePointNode(toks, m)
    [] m.node = "PostCruiseSlash" -> PostCruiseSlashNode(toks, m)
    [] m.node = "BreakFirst" -> BreakFirstNode(toks, m)
    [] m.node = "Break" -> BreakNode(toks, m)
    [] m.node = "Resync" -> ResyncNode(toks, m)
    [] m.node = "ResyncSlash" -> ResyncSlashNode(toks, m)
    [] m.node = "Done" -> FinishNode(toks, m)

\* The whole parse as a function, for properties that relate two parses.
\* (The binding of x makes TLC evaluate a step once, before it goes on.)
RECURSIVE RunFrom(_, _)
RunFrom(toks, m) == IF m.node = "Final" THEN m
                    ELSE CHOOSE r \in {RunFrom(toks, x) : x \in {Step(toks, m)}} : TRUE
Parse(toks) == RunFrom(toks, Start0)
=============================================================================
