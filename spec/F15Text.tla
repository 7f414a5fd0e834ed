------------------------------ MODULE F15Text ------------------------------
(***************************************************************************)
(* Text.  A text is a TLA+ string when it is only stored and compared, and *)
(* a sequence of character codes when single characters matter.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Printable == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"

\* Character codes (ASCII) of the printable characters above: " (34) and \ (92) are left out.
CodeOf ==
  LET c(i) == IF i = 1 THEN 32 ELSE IF i = 2 THEN 33
              ELSE IF i + 32 <= 91 THEN i + 32 ELSE i + 33
  IN  [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
         c(CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch)]

Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

Ch(s, i) == SubSeq(s, i, i)

Digits == "0123456789"
DigitChars == {SubSeq(Digits, i, i) : i \in 1..10}
DigitVal == [ch \in DigitChars |-> CodeOf[ch] - 48]

\* Value of a digit string of at most 8 digits, -1 for any other string.  Total.
RECURSIVE NumAcc(_, _, _)
NumAcc(s, i, a) ==
  IF i > Len(s) THEN a
  ELSE IF Ch(s, i) \in DigitChars THEN NumAcc(s, i + 1, 10 * a + DigitVal[Ch(s, i)])
  ELSE -1
Num(s) == IF Len(s) = 0 \/ Len(s) > 8 THEN -1 ELSE NumAcc(s, 1, 0)

NumAt(s, i, j) == Num(SubSeq(s, i, j))

RECURSIVE JoinAcc(_, _, _)
JoinAcc(ws, i, a) == IF i > Len(ws) THEN a ELSE JoinAcc(ws, i + 1, a \o " " \o ws[i])
Join(ws) == IF ws = <<>> THEN "" ELSE JoinAcc(ws, 2, ws[1])

\* Does string s occur in string t at position i / anywhere?
OccursAt(s, t, i) == i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s
=============================================================================
