----------------------------- MODULE F15Syntax -----------------------------
(***************************************************************************)
(* The kinds of field 15 elements (ICAO Doc 4444 syntax as documented by   *)
(* the repository): an ordered table of patterns; the first pattern that   *)
(* matches a whole token decides its base kind and subtype.                *)
(*                                                                         *)
(* A pattern is a sequence of items [c, lo, hi]: between lo and hi         *)
(* characters from the code set c.  Matching is greedy, which is exact     *)
(* because of assumption TableIsDeterministic.                             *)
(***************************************************************************)
EXTENDS F15Text

MaxTokenLength == 25

UPPER == 65..90
DIGIT == 48..57

It(c, lo, hi) == <<[c |-> c, lo |-> lo, hi |-> hi]>>
Al(lo, hi) == It(UPPER, lo, hi)
Dg(lo, hi) == It(DIGIT, lo, hi)
One(c)     == It(c, 1, 1)
Lit(s)     == LET cs == Codes(s) IN [i \in 1..Len(cs) |-> [c |-> {cs[i]}, lo |-> 1, hi |-> 1]]
OneOf(s)   == LET cs == Codes(s) IN One({cs[i] : i \in 1..Len(cs)})

Row(p, b, u) == <<[p |-> p, b |-> b, u |-> u]>>

\* Speeds and levels -------------------------------------------------------
SpeedUnits == <<"M", "K", "N">>
LevelUnits == <<"F", "S", "A", "M">>
SpeedDigits(x) == IF x = "M" THEN 3 ELSE 4
LevelDigits(x) == IF x \in {"F", "A"} THEN 3 ELSE 4
Speed(x) == Lit(x) \o Dg(SpeedDigits(x), SpeedDigits(x))
Level(x) == Lit(x) \o Dg(LevelDigits(x), LevelDigits(x))

RECURSIVE CatMap(_, _, _)
CatMap(F(_), s, i) == IF i > Len(s) THEN <<>> ELSE F(s[i]) \o CatMap(F, s, i + 1)
ForEach(s, F(_)) == CatMap(F, s, 1)

SpeedLevelRows ==
  ForEach(SpeedUnits, LAMBDA v : ForEach(LevelUnits, LAMBDA a :
    Row(Speed(v) \o Level(a), "SPEED_ALTITUDE", "SPEED_ALTITUDE_" \o v \o a)))
SpeedLevelLevelRows ==
  ForEach(SpeedUnits, LAMBDA v : ForEach(LevelUnits, LAMBDA a : ForEach(LevelUnits, LAMBDA b :
    Row(Speed(v) \o Level(a) \o Level(b), "SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_" \o v \o a \o b))))
SpeedLevelPlusRows ==
  ForEach(SpeedUnits, LAMBDA v : ForEach(LevelUnits, LAMBDA a :
    Row(Speed(v) \o Level(a) \o Lit("PLUS"), "SPEED_ALTITUDE_PLUS", "SPEED_ALTITUDE_" \o v \o a \o "_P")))

\* Lat/long ----------------------------------------------------------------
LLDeg == Dg(2, 2) \o OneOf("NS") \o Dg(3, 3) \o OneOf("EW")
LLMin == Dg(4, 4) \o OneOf("NS") \o Dg(5, 5) \o OneOf("EW")

Table ==
     Row(Lit("/"), "SLASH", "SLASH")
  \o Row(Lit("VFR"), "BREAK_START", "VFR")
  \o Row(Speed("M") \o Lit("VFR"), "SPEED_VFR", "SPEED_ALTITUDE_MV")
  \o Row(Speed("N") \o Lit("VFR"), "SPEED_VFR", "SPEED_ALTITUDE_NV")
  \o Row(Speed("K") \o Lit("VFR"), "SPEED_VFR", "SPEED_ALTITUDE_KV")
  \o Row(Lit("IFR"), "BREAK_END", "IFR")
  \o Row(Lit("DCT"), "DCT", "DCT")
  \o Row(Lit("OAT"), "BREAK_START", "OAT")
  \o Row(Lit("GAT"), "BREAK_END", "GAT")
  \o Row(Lit("IFPSTOP"), "BREAK_START", "IFPSTOP")
  \o Row(Lit("IFPSTART"), "BREAK_END", "IFPSTART")
  \o Row(Lit("STAY") \o Dg(1, 1), "STAY", "STAY")
  \o Row(OneOf("01") \o Dg(1, 1) \o OneOf("012345") \o Dg(1, 1), "STAY_TIME", "STAY_TIME")
  \o Row(Lit("2") \o OneOf("0123") \o OneOf("012345") \o Dg(1, 1), "STAY_TIME", "STAY_TIME")
  \o Row(Lit("T"), "TRUNCATE", "TRUNCATE")
  \o Row(Lit("C"), "C", "C")
  \o Row(Lit("SID"), "SID", "SID_LITERAL")
  \o Row(Lit("STAR"), "STAR", "STAR_LITERAL")
  \o Row(Lit("NAT") \o Al(1, 1), "ROUTE", "NAT")
  \o Row(Lit("NAT") \o Al(1, 1) \o Dg(1, 1), "ROUTE", "NAT")
  \o Row(Lit("PTS") \o Dg(1, 1), "ROUTE", "PTS")
  \o Row(Lit("PTS") \o Al(1, 1), "ROUTE", "PTS")
  \o Row(Al(1, 3), "POINT", "PRP")
  \o Row(Al(4, 4), "POINT", "PRP_AERO")
  \o Row(Al(5, 5), "POINT", "PRP")
  \o Row(Al(1, 5) \o Dg(6, 6), "POINT", "PRP_BD")
  \o Row(LLDeg, "POINT", "LL_DEG")
  \o Row(LLMin, "POINT", "LL_MIN")
  \o Row(LLDeg \o Dg(6, 6), "POINT", "LLBD_DEG")
  \o Row(LLMin \o Dg(6, 6), "POINT", "LLBD_MIN")
  \o Row(Al(1, 2) \o Dg(1, 1), "ROUTE", "ATS")
  \o Row(Al(1, 1) \o Dg(1, 3) \o Al(1, 1), "ROUTE", "ATS")
  \o Row(Al(1, 1) \o Dg(2, 3), "ROUTE", "ATS")
  \o Row(Al(3, 3) \o Dg(3, 3), "ROUTE", "ATS_TURK")
  \o Row(Al(3, 3) \o Dg(1, 2), "ROUTE", "ATS_OLD")
  \o Row(Al(2, 2) \o Dg(1, 1) \o Al(1, 1), "ROUTE", "ATS")
  \o Row(Al(2, 2) \o Dg(2, 3), "ROUTE", "ATS")
  \o Row(Al(4, 4) \o Dg(1, 2), "ROUTE", "ATS_RUS")
  \o Row(Al(2, 2) \o Dg(2, 3) \o Al(1, 1), "ROUTE", "ATS")
  \o Row(Al(3, 3) \o Dg(1, 2) \o Al(1, 1), "SID_STAR", "STAR")
  \o Row(Al(5, 5) \o Dg(1, 2), "SID_STAR", "STAR")
  \o Row(Al(4, 6) \o Dg(1, 1) \o Al(1, 1), "SID_STAR", "STAR")
  \o Row(Al(5, 5) \o Dg(2, 2) \o Al(1, 1), "SID_STAR", "STAR")
  \o SpeedLevelRows \o SpeedLevelLevelRows \o SpeedLevelPlusRows

\* TLC: evaluate the table once.
TheTable == TLCEval(Table)

\* Greedy matching is exact: an item of variable length is followed by a disjoint one.
TableIsDeterministic ==
  \A r \in 1..Len(TheTable) : LET p == TheTable[r].p IN
    \A i \in 1..(Len(p) - 1) : p[i].lo = p[i].hi \/ p[i].c \cap p[i + 1].c = {}

RECURSIVE RunLen(_, _, _, _)
RunLen(cs, pos, c, max) ==      \* length of the longest run from pos in c, at most max
  IF max = 0 \/ pos > Len(cs) THEN 0
  ELSE IF cs[pos] \notin c THEN 0
  ELSE 1 + RunLen(cs, pos + 1, c, max - 1)

RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(p, i, cs, pos) ==
  IF i > Len(p) THEN pos = Len(cs) + 1
  ELSE LET n == RunLen(cs, pos, p[i].c, p[i].hi)
       IN  n >= p[i].lo /\ MatchFrom(p, i + 1, cs, pos + n)
Matches(p, cs) == MatchFrom(p, 1, cs, 1)

RECURSIVE SumLo(_, _), SumHi(_, _)
SumLo(p, i) == IF i > Len(p) THEN 0 ELSE p[i].lo + SumLo(p, i + 1)
SumHi(p, i) == IF i > Len(p) THEN 0 ELSE p[i].hi + SumHi(p, i + 1)
\* The rows a token of n characters can match at all, in table order.
RowsOfLength == TLCEval([n \in 0..MaxTokenLength |->
  SelectSeq([r \in 1..Len(TheTable) |-> r],
            LAMBDA r : LET p == TheTable[r].p IN
              SumLo(p, 1) <= n /\ n <= SumHi(p, 1))])

RECURSIVE FirstRow(_, _, _)
FirstRow(rows, x, cs) ==
  IF x > Len(rows) THEN 0
  ELSE IF Matches(TheTable[rows[x]].p, cs) THEN rows[x]
  ELSE FirstRow(rows, x + 1, cs)

\* Base kind and subtype of a token given as codes.
Classify(cs) ==
  IF Len(cs) > MaxTokenLength THEN <<"TOO_LONG", "UNKNOWN">>
  ELSE LET r == FirstRow(RowsOfLength[Len(cs)], 1, cs)
       IN  IF r = 0 THEN <<"UNKNOWN", "UNKNOWN">> ELSE <<TheTable[r].b, TheTable[r].u>>

---------------------------------------------------------------------------
\* What the parser reads out of a token besides its kind.

Modifiers == {"SPEED_VFR", "SPEED_ALTITUDE", "SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"}

SpeedPart(t) == SubSeq(t, 1, 1 + SpeedDigits(Ch(t, 1)))
LevelFrom(t, i) == SubSeq(t, i, i + LevelDigits(Ch(t, i)))

SpeedText(t, b) == IF b \in Modifiers THEN SpeedPart(t) ELSE ""
LevelText(t, b) ==
  IF b = "SPEED_VFR" THEN "F050"      \* default level of a speed/VFR element
  ELSE IF b \in Modifiers THEN LevelFrom(t, Len(SpeedPart(t)) + 1) ELSE ""
CruiseText(t, b) ==
  IF b \in {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"}
  THEN SubSeq(t, Len(SpeedPart(t)) + Len(LevelText(t, b)) + 1, Len(t)) ELSE ""

\* Lat/long in minutes of arc, signed; validity of each angle.
NoLL == [has |-> FALSE, lat |-> 0, lon |-> 0, latOK |-> TRUE, lonOK |-> TRUE]
DegLL(t) ==
  LET la == NumAt(t, 1, 2)  lo == NumAt(t, 4, 6)
  IN  [has |-> TRUE,
       lat |-> (IF Ch(t, 3) = "S" THEN -1 ELSE 1) * la * 60,
       lon |-> (IF Ch(t, 7) = "W" THEN -1 ELSE 1) * lo * 60,
       latOK |-> la <= 90, lonOK |-> lo <= 180]
MinLL(t) ==
  LET lad == NumAt(t, 1, 2)  lam == NumAt(t, 3, 4)
      lod == NumAt(t, 6, 8)  lom == NumAt(t, 9, 10)
  IN  [has |-> TRUE,
       lat |-> (IF Ch(t, 5) = "S" THEN -1 ELSE 1) * (lad * 60 + lam),
       lon |-> (IF Ch(t, 11) = "W" THEN -1 ELSE 1) * (lod * 60 + lom),
       latOK |-> lam <= 59 /\ lad * 60 + lam <= 90 * 60,
       lonOK |-> lom <= 59 /\ lod * 60 + lom <= 180 * 60]
LatLong(t, u) ==
  CASE u \in {"LL_DEG", "LLBD_DEG"} -> DegLL(t)
    [] u \in {"LL_MIN", "LLBD_MIN"} -> MinLL(t)
    [] OTHER -> NoLL
WithBearing == {"PRP_BD", "LLBD_DEG", "LLBD_MIN"}
LatLongKinds == {"PRP_BD", "LL_DEG", "LL_MIN", "LLBD_DEG", "LLBD_MIN"}
Bearing(t, u)  == IF u \in WithBearing THEN NumAt(t, Len(t) - 5, Len(t) - 3) ELSE 0
Distance(t, u) == IF u \in WithBearing THEN NumAt(t, Len(t) - 2, Len(t)) ELSE 0

\* Flight level not ending in 0 or 5, in either level of the element
BadLevel(a) == Len(a) = 4 /\ Ch(a, 1) = "F" /\ Ch(a, 4) \notin {"0", "5"}

\* Everything about a token text t with codes cs.
TokenKind(t, cs) ==
  LET k == Classify(cs)  b == k[1]  u == k[2]
      ll == LatLong(t, u)
  IN  [b |-> b, u |-> u, sp |-> SpeedText(t, b), al |-> LevelText(t, b), ct |-> CruiseText(t, b),
       ll |-> ll, brg |-> Bearing(t, u), dst |-> Distance(t, u),
       \* errors a point raises by its values, in order
       sem |->  (IF ll.latOK THEN <<>> ELSE <<IF u \in {"LL_DEG", "LLBD_DEG"} THEN 42 ELSE 43>>)
             \o (IF ll.lonOK THEN <<>> ELSE <<IF u \in {"LL_DEG", "LLBD_DEG"} THEN 44 ELSE 45>>)
             \o (IF Bearing(t, u) <= 360 THEN <<>> ELSE <<46>>),
       \* errors a modifier raises by its values
       lev |-> IF b = "SPEED_VFR" THEN <<>>
               ELSE (IF BadLevel(LevelText(t, b)) THEN <<40>> ELSE <<>>)
                 \o (IF b = "SPEED_ALTITUDE_ALTITUDE" /\ BadLevel(CruiseText(t, b)) THEN <<40>> ELSE <<>>),
       mins |-> IF b = "STAY_TIME" THEN 60 * NumAt(t, 1, 2) + NumAt(t, 3, 4) ELSE 0]

KindOfText(t) == TokenKind(t, Codes(t))

Kinds == {"UNKNOWN", "SLASH", "BREAK_START", "SPEED_VFR", "BREAK_END", "DCT", "STAY", "TRUNCATE", "C",
          "POINT", "ROUTE", "SID_STAR", "SPEED_ALTITUDE", "SPEED_ALTITUDE_ALTITUDE",
          "SPEED_ALTITUDE_PLUS", "TOO_LONG", "STAY_TIME", "SID", "STAR"}
=============================================================================
