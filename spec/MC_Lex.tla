------------------------------- MODULE MC_Lex -------------------------------
(* Every string over Chars up to MaxLen, with every set of delimiters over Delims. *)
EXTENDS F15Lex
CONSTANTS Chars, Delims, MaxLen
VARIABLES field, words, lexer
vars == <<field, words, lexer>>
Init == /\ \E n \in 0..MaxLen : field \in [1..n -> Chars]
        /\ words \in SUBSET Delims /\ lexer = LexStart
ReadChar == ~ LexDone(field, lexer) /\ lexer' = LexStep(field, words, lexer) /\ UNCHANGED <<field, words>>
Spec == Init /\ [][ReadChar]_vars /\ WF_vars(ReadChar)
Inv_C01 == LexDone(field, lexer) => P_Partition(field, words, lexer.out)
Inv_Cuts == LexDone(field, lexer) => LexCuts(field, words) = lexer.out
\* at every point the tokens so far are those of the part read so far
Inv_Prefix == \A k \in 1..Len(lexer.out) : lexer.out[k].e < lexer.pos
\* C23: the texts do not depend on which blanks separate them, nor on how many
Squeeze(g) == LET keep == {i \in 1..Len(g) : ~ (g[i] \in words \ {Slash} /\ i > 1 /\ g[i - 1] \in words)}
                  RECURSIVE Pick(_)
                  Pick(i) == IF i > Len(g) THEN <<>> ELSE (IF i \in keep THEN <<g[i]>> ELSE <<>>) \o Pick(i + 1)
              IN  Pick(1)
Inv_C23 == (LexDone(field, lexer) /\ words # {}) => TextsOf(Lex(Squeeze(field), words)) = TextsOf(lexer.out)
Terminates == <>LexDone(field, lexer)
=============================================================================
