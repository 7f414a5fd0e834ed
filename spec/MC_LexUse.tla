------------------------------ MODULE MC_LexUse ------------------------------
(* Every history of at most MaxOps operations of one tokenizer object: the string and the *)
(* delimiters are set, in any order and repeatedly, and the string is tokenized, again    *)
(* and again.  Strings and Delims are the choices; hist holds their numbers.              *)
EXTENDS F15Lex, F15Report
CONSTANTS Strings, Delims, MaxOps, Emit
VARIABLES lexer, hist
vars == <<lexer, hist>>
Full(op) == CASE op[1] = "string" -> <<"string", Strings[op[2]]>>
              [] op[1] = "delims" -> <<"delims", Delims[op[2]]>>
              [] OTHER -> op
Ops == {<<"string", x>> : x \in 1..Len(Strings)} \cup {<<"delims", x>> : x \in 1..Len(Delims)} \cup {<<"tokenize", 0>>, <<"tokens", 0>>}
Init == lexer = NewTokenizer /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E op \in Ops : lexer' = LexApply(lexer, Full(op)) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
\* the list of each tokenization is that of the string and delimiters set last before it
LastOf(k, name, none) == LET S == {i \in 1..k : hist[i][1] = name} IN IF S = {} THEN none ELSE hist[CHOOSE i \in S : \A j \in S : j <= i][2]
StringAt(k) == LET x == LastOf(k, "string", 0) IN IF x = 0 THEN <<>> ELSE Strings[x]
DelimsAt(k) == LET x == LastOf(k, "delims", 0) IN IF x = 0 THEN DefaultDelims ELSE Codeset(Delims[x])
Runs == SelectSeq([i \in 1..Len(hist) |-> <<hist[i][1], i>>], LAMBDA x : x[1] = "tokenize")
Inv_Use == /\ Len(lexer.lists) = 1 + Len(Runs) /\ lexer.lists[1] = <<>>
           /\ \A k \in 1..Len(Runs) : P_Partition(StringAt(Runs[k][2]), DelimsAt(Runs[k][2]), lexer.lists[k + 1])
\* lists handed out earlier stay as they are
Stable == [][\A k \in 1..Len(lexer.lists) : lexer'.lists[k] = lexer.lists[k]]_vars
Emitted == (Emit /\ Len(hist) = MaxOps) => Emission(hist)
=============================================================================
