------------------------------- MODULE F15Fits -------------------------------
(* What the messages say, independent of when the parser's machine gives them. *)
EXTENDS F15Parser

\* Every message is true of the token it names and of what stands before that token: for number n, what
\* must be the case at token k, when lastKind is the subtype of the last element before it.  prev(x) is the kind of the token x places before.
Fits(toks, lastKind, k, n) ==
  LET prev(x) == IF k - x >= 1 THEN B(toks, k - x) ELSE "none"
      b == B(toks, k)
      climbing(x) == prev(x) = "SLASH" /\ prev(x + 1) = "C"        \* C / stands x places before
      namedPoint == {"POINT", "C"}
  IN
  IF k = 0 THEN n = 41 /\ Len(toks) = 0 ELSE
  CASE n = 1  -> k = 1 /\ b \notin {"SPEED_ALTITUDE", "SPEED_VFR"}
    [] n = 3  -> b = "UNKNOWN"
    [] n = 4  -> b = "TOO_LONG"
    [] n = 5  -> b \in {"SPEED_ALTITUDE", "SPEED_VFR"} /\ prev(1) # "SLASH"
    [] n = 6  -> U(toks, k) = "IFR"
    [] n = 7  -> U(toks, k) = "GAT"
    [] n = 8  -> U(toks, k) = "IFPSTART"
    [] n = 9  -> b \in {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"} /\ prev(1) # "SLASH"
    [] n = 10 -> b = "STAY_TIME" /\ ~ (prev(1) = "SLASH" /\ prev(2) = "STAY")
    [] n = 11 -> prev(1) = "SLASH"
    [] n = 12 -> prev(1) = "ROUTE" /\ b = "SLASH"
    [] n = 13 -> prev(1) = "ROUTE" /\ b \in {"BREAK_START", "SPEED_VFR"}
    [] n = 14 -> prev(1) = "ROUTE" /\ b = "DCT"
    [] n = 15 -> prev(1) = "ROUTE" /\ b = "STAY"
    [] n = 16 -> prev(1) = "SLASH" /\ b = "SLASH"
    [] n = 18 -> climbing(1) /\ b \notin namedPoint
    [] n = 19 -> prev(1) = "TRUNCATE"
    [] n = 20 -> k = Len(toks) /\ b = "SLASH"
    [] n = 21 -> prev(1) = "DCT" /\ b \notin {"POINT", "C", "TRUNCATE"}
    [] n = 22 -> b = "POINT" /\ U(toks, k - 1) = "IFR"
    [] n = 23 -> prev(1) = "SPEED_ALTITUDE" /\ b \notin {"POINT", "SID", "STAR", "SID_STAR", "DCT", "TRUNCATE", "ROUTE"}
    [] n = 24 -> prev(1) = "SPEED_ALTITUDE" /\ b = "ROUTE"
    [] n = 25 -> k = Len(toks) /\ b = "SLASH"
    [] n = 26 -> climbing(2) /\ prev(1) \in namedPoint /\ b # "SLASH"
    [] n = 27 -> k = Len(toks) /\ climbing(1) /\ b \in namedPoint
    [] n = 28 -> k = Len(toks) - 1 /\ climbing(1) /\ b \in namedPoint /\ B(toks, k + 1) = "SLASH"
    [] n = 29 -> climbing(3) /\ prev(2) \in namedPoint /\ prev(1) = "SLASH" /\ b \notin {"SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"}
    [] n = 30 -> b = "SID"
    [] n = 31 -> prev(1) \in {"SID", "SID_STAR"} /\ b \notin {"POINT", "STAR"}
    [] n = 32 -> prev(1) \in {"SID", "SID_STAR"} /\ b = "SID"
    [] n = 34 -> prev(1) \in {"STAR", "SID_STAR"}
    [] n = 35 -> k = Len(toks) /\ b = "STAY"
    [] n = 36 -> prev(1) = "STAY" /\ b # "SLASH"
    [] n = 37 -> k = Len(toks) /\ b = "SLASH" /\ prev(1) = "STAY"
    [] n = 38 -> prev(1) = "SLASH" /\ prev(2) = "STAY" /\ b # "STAY_TIME"
    [] n = 39 -> prev(1) = "STAY_TIME" /\ prev(2) = "SLASH"
    [] n = 40 -> 40 \in {toks[k].k.lev[x] : x \in 1..Len(toks[k].k.lev)}
    [] n \in 42..46 -> n \in {toks[k].k.sem[x] : x \in 1..Len(toks[k].k.sem)}
    [] n = 47 -> b = "ROUTE" /\ lastKind \in LatLongKinds
    [] n = 48 -> prev(1) = "ROUTE" /\ U(toks, k) \in LatLongKinds
    [] n = 49 -> Len(toks) = 1 /\ b = "SPEED_ALTITUDE"
    [] n = 50 -> prev(1) = "SLASH" /\ b \notin {"SPEED_ALTITUDE", "SPEED_VFR"}
    [] n = 52 -> k = Len(toks) /\ b = "SLASH" /\ prev(1) = "C"
    [] n = 53 -> prev(1) = "ROUTE" /\ b = "ROUTE"
    [] n = 54 -> prev(1) = "ROUTE" /\ b \in {"STAR", "SID_STAR"}
    [] n = 55 -> prev(1) = "ROUTE" /\ b = "SPEED_ALTITUDE"
    [] OTHER  -> FALSE
=============================================================================
