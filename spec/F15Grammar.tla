----------------------------- MODULE F15Grammar -----------------------------
(***************************************************************************)
(* The grammar of correct fields, independent of the parser's machine: a   *)
(* field is correct when it can be cut into units, each of a known shape,  *)
(* such that neighbouring units may follow one another.                    *)
(*                                                                         *)
(*  unit            shape                                     counts as    *)
(*  departure       SPEED LEVEL                               adep         *)
(*  VFR departure   SPEED VFR, text                           VFR          *)
(*  point           POINT, any number of  / SPEED LEVEL       named, geo   *)
(*  cruise climb    C / POINT or C / SPEED LEVEL LEVEL or PLUS,            *)
(*                  any number of  / SPEED LEVEL              named, geo   *)
(*  one letter C    C                                         c            *)
(*  stay            STAYn / TIME                              stay         *)
(*  route, DCT, T   one token                                 route dct T  *)
(*  SID, STAR       one token                                 sid star     *)
(*  section         VFR, OAT, IFPSTOP or  / SPEED VFR, text   VFR OAT IFPS *)
(*  section end     GAT POINT, IFPSTART POINT, IFR POINT / SPEED LEVEL,    *)
(*                  any number of  / SPEED LEVEL              named, geo   *)
(*                  IFR POINT / SPEED VFR, text               VFR          *)
(* where geo is a point given with coordinates or by bearing and distance. *)
(***************************************************************************)
EXTENDS F15Parser

\* (Tokens are read by kind, and a token with a wrong value is read as nothing.)
Kind(toks, k) == IF k > Len(toks) THEN "end"
                 ELSE IF toks[k].k.sem # <<>> \/ toks[k].k.lev # <<>> THEN "wrong value"
                 ELSE toks[k].k.b
Sub(toks, k) == toks[k].k.u
PointKind(toks, k) == IF Sub(toks, k) \in LatLongKinds THEN "geo" ELSE "named"

\* Ends of  { / SPEED LEVEL }  from k.
RECURSIVE Levels(_, _)
Levels(toks, k) == {k} \cup (IF Kind(toks, k) = "SLASH" /\ Kind(toks, k + 1) = "SPEED_ALTITUDE" THEN Levels(toks, k + 2) ELSE {})

\* A section of kind x is brought to an end by its keyword before a point - for VFR, when
\* a '/' or nothing follows that point.
EndWord == [VFR |-> "IFR", OAT |-> "GAT", IFPS |-> "IFPSTART"]
Closing(toks, x, k) ==
  /\ k < Len(toks) /\ Sub(toks, k) = EndWord[x] /\ B(toks, k + 1) = "POINT"
  /\ x = "VFR" => (k + 2 > Len(toks) \/ B(toks, k + 2) = "SLASH")
RECURSIVE Text(_, _, _)
Text(toks, x, k) == {k} \cup (IF k > Len(toks) THEN {}
                              ELSE IF B(toks, k) = "TOO_LONG" \/ Closing(toks, x, k) THEN {} ELSE Text(toks, x, k + 1))

Section == [VFR |-> "VFR", OAT |-> "OAT", IFPSTOP |-> "IFPS"]

\* The units that start at k, as <<where they end, what they count as>>, after a unit that counts as w.
UnitsAt(toks, w, k) ==
  LET kd == Kind(toks, k)  kd1 == Kind(toks, k + 1)  kd2 == Kind(toks, k + 2)  kd3 == Kind(toks, k + 3)  kd4 == Kind(toks, k + 4)
      one(as) == {<<k + 1, as>>}
      some(ends, as) == {<<e, as>> : e \in ends}
  IN
  IF w \in {"VFR", "OAT", "IFPS"} THEN
     IF ~ Closing(toks, w, k) \/ kd1 # "POINT" THEN {}
     ELSE IF w # "VFR" THEN some(Levels(toks, k + 2), PointKind(toks, k + 1))
     ELSE IF kd2 = "SLASH" /\ kd3 = "SPEED_ALTITUDE" THEN some(Levels(toks, k + 4), PointKind(toks, k + 1))
     ELSE IF kd2 = "SLASH" /\ kd3 = "SPEED_VFR" THEN some(Text(toks, "VFR", k + 4), "VFR")
     ELSE {}
  ELSE IF w = "field" THEN
     CASE kd = "SPEED_ALTITUDE" -> one("adep")
       [] kd = "SPEED_VFR" -> some(Text(toks, "VFR", k + 1), "VFR")
       [] OTHER -> {}
  ELSE
     CASE kd = "POINT" -> some(Levels(toks, k + 1), PointKind(toks, k))
       [] kd = "C" -> one("c")
            \cup (IF kd1 = "SLASH" /\ kd2 \in {"POINT", "C"} /\ kd3 = "SLASH" /\ kd4 \in {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"}
                  THEN some(Levels(toks, k + 5), PointKind(toks, k + 2)) ELSE {})
       [] kd = "STAY" -> IF kd1 = "SLASH" /\ kd2 = "STAY_TIME" THEN {<<k + 3, "stay">>} ELSE {}
       [] kd = "ROUTE" -> one("route")
       [] kd = "DCT" -> one("dct")
       [] kd = "TRUNCATE" -> one("T")
       [] kd = "SID" -> one("sid")
       [] kd = "STAR" -> one("star")
       [] kd = "SID_STAR" -> one("sid") \cup one("star")
       [] kd = "BREAK_START" -> LET x == Section[Sub(toks, k)] IN some(Text(toks, x, k + 1), x)
       [] kd = "SLASH" -> IF kd1 = "SPEED_VFR" THEN some(Text(toks, "VFR", k + 2), "VFR") ELSE {}
       [] OTHER -> {}

\* What a unit may be followed by: the kind of its first token, and what it counts as.
Rest == {"DCT", "TRUNCATE", "POINT", "STAR", "SID_STAR"}
FollowedBy(w) ==
  CASE w = "field" -> {"SPEED_ALTITUDE", "SPEED_VFR"}
    [] w = "adep"  -> Rest \cup {"SID"}
    [] w = "sid"   -> (Rest \cup {"ROUTE"}) \ {"DCT"}
    [] w = "named" -> Rest \cup {"C", "STAY", "ROUTE", "BREAK_START", "SLASH"}
    [] w = "geo"   -> Rest \cup {"C", "STAY", "BREAK_START", "SLASH"}
    [] w = "c"     -> Rest \cup {"C", "STAY", "ROUTE", "BREAK_START"}
    [] w = "stay"  -> Rest \cup {"C", "ROUTE", "BREAK_START"}
    [] w = "route" -> {"POINT", "C", "TRUNCATE"}
    [] w = "dct"   -> {"POINT", "C", "TRUNCATE"}
    [] w \in {"T", "star"} -> {}
    [] w \in {"VFR", "OAT", "IFPS"} -> {"BREAK_END"}
MayFollow(w, toks, k, as) ==
  /\ Kind(toks, k) \in FollowedBy(w)
  /\ as = "sid" => w = "adep"
  /\ (w = "route" /\ B(toks, k) = "POINT") => as # "geo"

RECURSIVE CutFrom(_, _, _)
CutFrom(toks, w, k) ==      \* can toks[k..] follow a unit that counts as w?
  IF k > Len(toks) THEN w # "field" /\ (w = "adep" => Len(toks) > 1)
  ELSE \E u \in UnitsAt(toks, w, k) : MayFollow(w, toks, k, u[2]) /\ CutFrom(toks, u[2], u[1])
Correct(toks) == CutFrom(toks, "field", 1)

\* C05: the parser reports nothing exactly on correct fields.
P_Language(toks, m) == m.node = "Final" => (m.errs = <<>> <=> Correct(toks))
=============================================================================
