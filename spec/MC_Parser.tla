----------------------------- MODULE MC_Parser -----------------------------
(* Exhaustive model: every token sequence over Alphabet up to length MaxLen, *)
(* optionally behind a fixed prefix.                                         *)
EXTENDS F15Machine, F15Props, F15Grammar
CONSTANTS Alphabet, Prefix, MaxLen
KindOf == TLCEval([t \in Alphabet \cup {Prefix[i] : i \in 1..Len(Prefix)} |-> KindOfText(t)])
MkToks(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i], s |-> i, e |-> i, k |-> KindOf[ts[i]]]]
Init == /\ m = Start0
        /\ \E n \in 0..MaxLen : \E f \in [1..n -> Alphabet] : fid = Prefix \o f
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ASSUME TableIsDeterministic
Inv_Type == TypeOK(toks, m)
Inv_C03 == P_Frame(toks, m)
Inv_C04 == P_Verdict(toks, m) /\ P_ErrorOrder(toks, m)
Inv_C05 == P_CleanGrammar(toks, m) /\ P_GarbageReported(toks, m) /\ P_Language(toks, m) /\ P_Messages(toks, m)
Inv_C06 == P_RouteOrder(toks, m) /\ P_OwnToken(toks, m)
Inv_C07 == P_NothingLost(toks, m) /\ P_NothingTwice(toks, m)
Inv_C08 == P_CarryForward(toks, m) /\ P_AdesBare(toks, m)
Inv_C10 == P_Rules(toks, m) /\ P_SectionRules(toks, m) /\ P_AdepRules(toks, m) /\ P_AdesRules(toks, m)
Inv_C11 == P_Derived(toks, m)
Inv_C12 == P_Located(toks, m)
Inv_C13 == P_Azimuth(toks, m)
Inv_C14 == P_Cruise(toks, m) /\ P_CruiseClean(toks, m)
Inv_C15 == P_Stay(toks, m) /\ P_StayClean(toks, m)
Inv_C16 == P_SidStar(toks, m)
Inv_C24 == P_BreakText(toks, m) /\ P_BreakEnds(toks, m)
\* the function the relational properties use is the machine
StepAgrees == [][m' = Step(toks, m)]_vars
Progress == [][Rank(toks, m') < Rank(toks, m)]_vars
Terminates == <>(m.node = "Final")
=============================================================================
