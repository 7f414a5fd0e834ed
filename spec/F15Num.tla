------------------------------- MODULE F15Num -------------------------------
(***************************************************************************)
(* SI values of speeds and levels, in whole metres and metres/second.      *)
(* TLC integers have 32 bits, so products are split or done in limbs.      *)
(* Each operator gives the set of acceptable values: a singleton except    *)
(* for exact ties, and where the usual conversion factors (0.514444 and    *)
(* 1852/3600; 0.2777778 and 1/3.6) round differently.                      *)
(***************************************************************************)
EXTENDS F15Text

LevelChars == {"F", "A", "S", "M"}
SpeedChars == {"N", "K", "M"}

IsLevelText(a) == /\ Len(a) \in {4, 5} /\ Ch(a, 1) \in LevelChars
                  /\ Len(a) = (IF Ch(a, 1) \in {"F", "A"} THEN 4 ELSE 5)
                  /\ NumAt(a, 2, Len(a)) >= 0
IsSpeedText(s) == /\ Len(s) \in {4, 5} /\ Ch(s, 1) \in SpeedChars
                  /\ Len(s) = (IF Ch(s, 1) = "M" THEN 4 ELSE 5)
                  /\ NumAt(s, 2, Len(s)) >= 0

\* 100 ft = 30.48 m; never a tie, since 48 n is never 50 modulo 100
LevelMetres(a) == LET n == NumAt(a, 2, Len(a)) IN
  IF Ch(a, 1) \in {"F", "A"} THEN (n * 3048 + 50) \div 100 ELSE 10 * n
LevelSI(a) == IF IsLevelText(a) THEN {LevelMetres(a)} ELSE IF a \in {"", "PLUS"} THEN {0} ELSE {}

\* floor((n * f + 500000) / 1000000) for f = 1000 * hi + lo, without overflow
ScaledMillion(n, hi, lo) == (n * hi + (n * lo + 500000) \div 1000) \div 1000
KnotSI(n) == {ScaledMillion(n, 514, 444), (2 * 463 * n + 900) \div 1800}
KmhSI(n)  == {(20 * n + 36) \div 72,
              \* n * 2777778 + 5000000, divided by 10000000
              (n * 277 + (n * 7778 + 5000000) \div 10000) \div 1000}

---------------------------------------------------------------------------
\* Natural numbers as little endian sequences of base 10000 limbs.
Base == 10000
Limb(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfNat(n \div Base)
\* x * n for a limb n < 10000
RECURSIVE TimesAcc(_, _, _, _)
TimesAcc(x, n, i, c) ==
  IF i > Len(x) THEN OfNat(c)
  ELSE LET v == x[i] * n + c IN <<v % Base>> \o TimesAcc(x, n, i + 1, v \div Base)
TimesLimb(x, n) == IF n = 0 THEN <<>> ELSE TimesAcc(x, n, 1, 0)
RECURSIVE AddAcc(_, _, _, _)
AddAcc(x, y, i, c) ==
  IF i > Len(x) /\ i > Len(y) THEN OfNat(c)
  ELSE LET v == Limb(x, i) + Limb(y, i) + c IN <<v % Base>> \o AddAcc(x, y, i + 1, v \div Base)
Plus(x, y) == AddAcc(x, y, 1, 0)
RECURSIVE Times(_, _)
Times(x, y) == IF y = <<>> THEN <<>>
               ELSE Plus(TimesLimb(x, y[1]), LET r == Times(x, Tail(y)) IN IF r = <<>> THEN r ELSE <<0>> \o r)
RECURSIVE LeqFrom(_, _, _)
LeqFrom(x, y, i) == IF i = 0 THEN TRUE
                    ELSE IF Limb(x, i) # Limb(y, i) THEN Limb(x, i) < Limb(y, i)
                    ELSE LeqFrom(x, y, i - 1)
Leq(x, y) == LeqFrom(x, y, IF Len(x) > Len(y) THEN Len(x) ELSE Len(y))

(***************************************************************************)
(* Mach m (hundredths) at h > 0 metres:                                    *)
(*   v = m/100 * 331.15 * sqrt((288.15 - 0.00645 min(h, 11000)) / 273.15)  *)
(* r is the nearest integer iff (2r-1)^2 <= 4 v^2 <= (2r+1)^2, and         *)
(*   4 v^2 = 4 m^2 33115^2 (28815000 - 645 h) / (10^8 * 27315000).         *)
(***************************************************************************)
MachRounds(m, h, r) ==
  LET hh  == IF h > 11000 THEN 11000 ELSE h
      sq(n) == Times(OfNat(n), OfNat(n))
      num == Times(Times(TimesLimb(sq(m), 4), sq(33115)), OfNat(28815000 - 645 * hh))
      den(n) == Times(Times(sq(n), OfNat(27315000)), OfNat(100000000))
  IN  /\ Leq(den(IF r = 0 THEN 0 ELSE 2 * r - 1), num)
      /\ Leq(num, den(2 * r + 1))
MachAtZero(m) == {(m * 343 + 50) \div 100, (m * 343 + 49) \div 100}

\* Is r an acceptable SI value for speed text s at level text a?
SpeedSIOK(s, a, r) ==
  IF s = "" THEN r = 0
  ELSE IF ~ IsSpeedText(s) THEN FALSE
  ELSE LET n == NumAt(s, 2, Len(s))  u == Ch(s, 1) IN
    CASE u = "N" -> r \in KnotSI(n)
      [] u = "K" -> r \in KmhSI(n)
      [] OTHER   -> LET h == IF IsLevelText(a) THEN LevelMetres(a) ELSE 0
                    IN  r >= 0 /\ r <= 4000 /\ IF h = 0 THEN r \in MachAtZero(n) ELSE MachRounds(n, h, r)
=============================================================================
