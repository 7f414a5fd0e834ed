----------------------------- MODULE MC_Relations -----------------------------
(* Every correct field over Alphabet (grown token by token), every gap in it and  *)
(* every kind of garbage in every gap.                                            *)
EXTENDS F15Relations
CONSTANTS Alphabet, Garbage, Prefix, MaxLen
VARIABLE seed
KindOf == TLCEval([t \in Alphabet \cup Garbage \cup {Prefix[i] : i \in 1..Len(Prefix)} |-> KindOfText(t)])
Tok(t) == [t |-> t, s |-> 0, e |-> 0, k |-> KindOf[t]]
Mk(ts) == [i \in 1..Len(ts) |-> Tok(ts[i])]
Init == seed = Prefix
Grow == Len(seed) < MaxLen /\ \E t \in Alphabet : seed' = Append(seed, t)
Spec == Init /\ [][Grow]_seed
Inv_C17 == LET T == Mk(seed) m1 == Parse(T) IN
  m1.errs = <<>> => \A k \in 2..Len(T) : IsGap(T, k) => \A g \in Garbage :
     P_Local(m1, Parse(InsertTok(T, k, Tok(g))), k)
\* Every field against the same field without its last token; longer extensions follow step by step.
Shorter == SubSeq(seed, 1, Len(seed) - 1)
Inv_C28 == Len(seed) > 0 => P_Begins(Parse(Mk(Shorter)), Parse(Mk(seed)), Len(seed) - 1, Reach)
\* ... and Reach cannot be less
Inv_Nearer == Len(seed) > 0 => P_Begins(Parse(Mk(Shorter)), Parse(Mk(seed)), Len(seed) - 1, Reach - 1)
\* The grammar is not vacuous: correct fields with a gap exist (counted by the harness).
HasGap == \E k \in 2..Len(seed) : IsGap(Mk(seed), k)
=============================================================================
