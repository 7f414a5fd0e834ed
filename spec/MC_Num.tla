-------------------------------- MODULE MC_Num --------------------------------
(* Every value of every unit of speed and level: its set of acceptable SI values  *)
(* is a singleton or two neighbours, close to an independent rational estimate,   *)
(* and never decreases with the value.                                            *)
EXTENDS F15Num
CONSTANTS MaxValue, MachLevels
VARIABLES unit, whole, half, now, next    \* now, next: acceptable SI values of n and n + 1, once converted
vars == <<unit, whole, half, now, next>>
RECURSIVE Pad(_, _)
Pad(x, w) == IF w = 0 THEN "" ELSE Pad(x \div 10, w - 1) \o ToString(x % 10)
\* the largest integer whose square is at most x
RECURSIVE RootBetween(_, _, _)
RootBetween(x, lo, hi) == IF hi - lo <= 1 THEN lo
  ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid <= x THEN RootBetween(x, mid, hi) ELSE RootBetween(x, lo, mid)
\* estimate of the speed of sound at hh metres in cm/s, from a^2 = 401.87 m^2/s^2/K * T and
\* T = 288.15 K - 0.0065 K/m * h; agrees with the documented formula to within one percent
Sound(hh) == LET k == IF hh > 11000 THEN 11000 ELSE hh
             IN  RootBetween(40187 * (28815 - (65 * k) \div 100), 0, 46000)
Top(u) == IF u \in {"levelF", "levelA", "mach"} THEN 998 ELSE MaxValue
Init == /\ unit \in {"levelF", "levelA", "levelS", "levelM", "N", "K", "mach"}
        /\ whole \in 0..Top(unit)
        /\ half \in (IF unit = "mach" THEN MachLevels ELSE {0})
        /\ now = {} /\ next = {}
LevelText(u, x) == CASE u = "levelF" -> "F" \o Pad(x, 3) [] u = "levelA" -> "A" \o Pad(x, 3)
                     [] u = "levelS" -> "S" \o Pad(x, 4) [] OTHER -> "M" \o Pad(x, 4)
MachCandidates(x, hh) ==
  IF hh = 0 THEN {r \in (3 * x)..(4 * x) : r \in MachAtZero(x)}
  ELSE LET c == (x * Sound(hh)) \div 10000 IN {r \in (IF c > 20 THEN c - 20 ELSE 0)..(c + 20) : MachRounds(x, hh, r)}
Values(u, x, hh) == CASE u = "N" -> KnotSI(x) [] u = "K" -> KmhSI(x) [] u = "mach" -> MachCandidates(x, hh)
                      [] OTHER -> LevelSI(LevelText(u, x))
Convert == now = {} /\ now' = Values(unit, whole, half) /\ next' = Values(unit, whole + 1, half) /\ UNCHANGED <<unit, whole, half>>
Halt == now # {} /\ UNCHANGED vars
Spec == Init /\ [][Convert \/ Halt]_vars
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Max(S) == CHOOSE a \in S : \A b \in S : b <= a
\* one value, or two neighbours where it is a tie or the usual factors differ
Inv_C09 == next # {} => /\ now # {} /\ Max(now) - Min(now) <= 1
                        /\ unit \in {"levelF", "levelA", "levelS", "levelM"} => Cardinality(now) = 1
Inv_Monotone == next # {} => (Min(now) <= Min(next) /\ Max(now) <= Max(next))
\* 3600 s/h * v = 1852 m/kt * n, and so on; half a unit of rounding and the last digit of the factor
Within(a, b, tol) == a - b <= tol /\ b - a <= tol
Inv_Close == \A v \in now :
  CASE unit = "N" -> Within(3600 * v, 1852 * whole, 1818)
    [] unit = "K" -> Within(36 * v, 10 * whole, 18)
    [] unit \in {"levelF", "levelA"} -> Within(10000 * v, 304800 * whole, 5000)
    [] unit \in {"levelS", "levelM"} -> v = 10 * whole
    [] unit = "mach" -> Within(10000 * v, whole * Sound(half), whole * 350 + 6000)
=============================================================================
