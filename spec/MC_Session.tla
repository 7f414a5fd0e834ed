------------------------------ MODULE MC_Session ------------------------------
(* Every history of at most MaxOps operations over the given fields.  Meaning is the *)
(* parser specification itself, Content the token list.                              *)
EXTENDS F15Parser, F15Report
CONSTANTS Texts, NFields, MaxOps, MaxLists, Emit
VARIABLES session, hist
vars == <<session, hist>>
KindOf == TLCEval([t \in UNION {{Texts[f][i] : i \in 1..Len(Texts[f])} : f \in 1..Len(Texts)} |-> KindOfText(t)])
Toks(f) == [i \in 1..Len(Texts[f]) |-> [t |-> Texts[f][i], s |-> i, e |-> i, k |-> KindOf[Texts[f][i]]]]
FieldMeaning == TLCEval([f \in 1..NFields |-> Parse(Toks(f))])
Mean(f) == FieldMeaning[f]
Txt(f) == Texts[f]
Lib == INSTANCE F15Session WITH Meaning <- Mean, Content <- Txt
Ops == {<<"lex", t, f>> : t \in 1..2, f \in 1..NFields} \cup {<<"parse", p, l>> : p \in 1..2, l \in 1..MaxLists}
  \cup {<<"edit", l, f>> : l \in 1..MaxLists, f \in 1..NFields}
  \cup {<<o, l, 0>> : o \in {"tokens", "walk", "read", "export"}, l \in 1..MaxLists} \cup {<<"build", 0, 0>>}
Init == session = Lib!NewSession /\ hist = <<>>
Do(op) == Lib!Enabled(session, op) /\ (op[1] = "lex" => Len(session.lists) < MaxLists) /\ (op[1] = "parse" => Len(session.seqs) < MaxLists)
          /\ session' = Lib!SessionApply(session, op) /\ hist' = Append(hist, op)
Next == Len(hist) < MaxOps /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
\* Whatever happened before, every sequence holds the meaning of what its list held when it was parsed:
\* of the field the list came from, or the one it was last turned into.
LexAt(l) == CHOOSE i \in 1..Len(hist) : hist[i][1] = "lex" /\ Cardinality({j \in 1..i : hist[j][1] = "lex"}) = l
ParseAt(q) == CHOOSE i \in 1..Len(hist) : hist[i][1] = "parse" /\ Cardinality({j \in 1..i : hist[j][1] = "parse"}) = q
HeldAt(l, i) == LET E == {j \in 1..i : hist[j][1] = "edit" /\ hist[j][2] = l} IN
                IF E = {} THEN hist[LexAt(l)][3] ELSE hist[CHOOSE j \in E : \A x \in E : x <= j][3]
Inv_C18 == /\ \A l \in 1..Len(session.lists) : session.lists[l].f = HeldAt(l, Len(hist))
           /\ \A q \in 1..Len(session.seqs) : session.seqs[q].res = Parse(Toks(HeldAt(hist[ParseAt(q)][3], ParseAt(q))))
\* results, once obtained, are never altered, nor are tokens unless the user edits them
Edited(l) == hist' # hist /\ hist'[Len(hist')][1] = "edit" /\ hist'[Len(hist')][2] = l
Stable == [][/\ \A q \in 1..Len(session.seqs) : session'.seqs[q] = session.seqs[q]
             /\ \A l \in 1..Len(session.lists) : Edited(l) \/ session'.lists[l].f = session.lists[l].f]_vars
Emitted == (Emit /\ Len(hist) = MaxOps) => Emission(hist)
=============================================================================
