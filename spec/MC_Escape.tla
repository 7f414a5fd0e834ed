------------------------------- MODULE MC_Escape -------------------------------
(* Every text over Chars up to MaxLen survives being written and read as XML     *)
(* attribute value and as element content.                                       *)
EXTENDS F15Xml
CONSTANTS Chars, MaxLen
VARIABLE text
Init == text = <<>>
Write == Len(text) < MaxLen /\ \E ch \in Chars : text' = Append(text, ch)
Spec == Init /\ [][Write]_text
Inv_C22 == Unescape(Escape(text), TRUE) = text /\ Unescape(Escape(text), FALSE) = text
\* what is written contains no markup
Inv_Quoted == \A i \in 1..Len(Escape(text)) : Escape(text)[i] \notin {60, 34, 9, 10, 13}
=============================================================================
