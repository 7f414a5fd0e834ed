------------------------------ MODULE MC_Class ------------------------------
(***************************************************************************)
(* The syntax table against a second, independent description of the       *)
(* kinds: every string over Chars up to MaxLen, read character by          *)
(* character.                                                              *)
(***************************************************************************)
EXTENDS F15Syntax
CONSTANTS Chars, MaxLen, Heads
VARIABLES word, kindOf
Init == word \in {Codes(h) : h \in Heads} /\ kindOf = Classify(word)
Type == Len(word) < MaxLen /\ \E c \in Chars : word' = Append(word, CodeOf[c]) /\ kindOf' = Classify(word')
Spec == Init /\ [][Type]_<<word, kindOf>>

RECURSIVE Shape(_, _)      \* letters L, digits D, anything else itself; "?" lower case and the like
Shape(cs, i) == IF i > Len(cs) THEN <<>>
  ELSE <<IF cs[i] \in UPPER THEN "L" ELSE IF cs[i] \in DIGIT THEN "D" ELSE IF cs[i] = 47 THEN "/" ELSE "?">> \o Shape(cs, i + 1)
Sh == Shape(word, 1)
L(n) == [i \in 1..n |-> "L"]
D(n) == [i \in 1..n |-> "D"]
Keywords == {Codes(s) : s \in {"VFR", "IFR", "DCT", "OAT", "GAT", "IFPSTOP", "IFPSTART", "T", "C", "SID", "STAR", "/"}}
NatPts == {Codes("NAT"), Codes("PTS")}
Track == Len(word) \in 4..5 /\ SubSeq(word, 1, 3) \in NatPts
AnyDigit == \E i \in 1..Len(word) : word[i] \in DIGIT
Odd == \E i \in 1..Len(word) : Sh[i] = "?"

\* total, one kind
Inv_Total == kindOf[1] \in Kinds
\* strange characters and '/' inside a token are never accepted
Inv_Odd == (Odd \/ (Len(word) > 1 /\ \E i \in 1..Len(word) : Sh[i] = "/")) => kindOf[1] = "UNKNOWN"
\* words: one to five letters that are no keyword are points
Inv_Word == (Sh = L(Len(word)) /\ Len(word) > 0 /\ word \notin Keywords /\ ~ Track) =>
              kindOf = (IF Len(word) > 5 THEN <<"UNKNOWN", "UNKNOWN">>
                   ELSE <<"POINT", IF Len(word) = 4 THEN "PRP_AERO" ELSE "PRP">>)
Inv_Keyword == (word \in Keywords) => kindOf[1] \notin {"POINT", "UNKNOWN", "ROUTE"}
Inv_Point == (kindOf[1] = "POINT" /\ kindOf[2] \in {"PRP", "PRP_AERO"}) => Sh = L(Len(word))
\* digits only: a time or nothing
Inv_Time == (Sh = D(Len(word))) =>
   (kindOf[1] = "STAY_TIME") = (Len(word) = 4 /\ word[3] <= 53 /\ (word[1] \in {48, 49} \/ (word[1] = 50 /\ word[2] <= 51)))
Inv_DigitsOnly == (Len(word) > 0 /\ Sh = D(Len(word))) => kindOf[1] \in {"STAY_TIME", "UNKNOWN"}
\* routes have a letter first and a digit, unless they are tracks
Inv_Route == kindOf[1] = "ROUTE" => Sh[1] = "L" /\ (AnyDigit \/ Track) /\ Len(word) \in 2..6
Inv_Sid == kindOf[1] = "SID_STAR" => Sh[1] = "L" /\ AnyDigit /\ Len(word) \in 5..8
Inv_Bearing == (kindOf[2] = "PRP_BD") = (Len(word) \in 7..11 /\ Sh = L(Len(word) - 6) \o D(6))
\* speeds: a speed prefix of the right width, whatever follows
Inv_Speed == (kindOf[1] \in Modifiers) =>
   LET u == word[1] IN
   IF u = 77 THEN SubSeq(Sh, 2, 4) = D(3) ELSE u \in {75, 78} /\ SubSeq(Sh, 2, 5) = D(4)
=============================================================================
