------------------------------- MODULE MC_Cover -------------------------------
(***************************************************************************)
(* Generates the behaviours handed to the implementation.  The parser      *)
(* reads a growing field; under the view below TLC keeps one shortest      *)
(* field per situation the parser can be in when the next token comes.     *)
(***************************************************************************)
EXTENDS F15Parser, F15Report
CONSTANTS Alphabet, MaxLen, Emit
VARIABLES path, parse
vars == <<path, parse>>
KindOf == TLCEval([t \in Alphabet |-> KindOfText(t)])
Mk(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i], s |-> 0, e |-> 0, k |-> KindOf[ts[i]]]]
\* the machine after the last token has been looked at, before the end is
RECURSIVE Reach(_, _)
Reach(T, x) == IF x.node \in {"Done", "Final"} \/ x.i > Len(T) THEN x ELSE CHOOSE r \in {Reach(T, y) : y \in {Step(T, x)}} : TRUE
Init == path = <<>> /\ parse = Start0
Read == Len(path) < MaxLen /\ \E t \in Alphabet : path' = Append(path, t) /\ parse' = Reach(Mk(path'), Start0)
Spec == Init /\ [][Read]_vars
Back(k) == IF Len(parse.ers) > k THEN parse.ers[Len(parse.ers) - k] ELSE Adep
Located(r) == IF r.pos THEN "L" ELSE IF IsPointLike(r) THEN "P" ELSE "-"
\* tokens a rule change is still waiting on
Pending == LET n == Len(path) IN
  IF n >= 1 /\ KindOf[path[n]].b = "BREAK_END" THEN 1
  ELSE IF n >= 2 /\ KindOf[path[n - 1]].b = "BREAK_END" /\ KindOf[path[n]].b = "POINT" THEN 2
  ELSE IF n >= 3 /\ KindOf[path[n - 2]].b = "BREAK_END" /\ KindOf[path[n - 1]].b = "POINT" /\ path[n] = "/" THEN 3 ELSE 0
View == <<parse.node, Len(path) > 0, Len(parse.ers) = 1, Len(parse.ers) = 2, parse.errs = <<>>, parse.first, Back(0).b, Back(0).u, Back(0).rules, Back(1).rules,
          Located(Back(0)), Located(Back(1)), Back(0).ct # "", Back(0).stay > 0, Back(0).bt # <<>>, Pending>>
Emitted == Emit => Emission(<<path, parse.node>>)
\* a token read never takes back what was extracted or reported before, but for a point's own modifiers
Grows == [][(Len(path) > 1 /\ parse.node # "Done" /\ Pending = 0) =>
            /\ Len(parse'.ers) >= Len(parse.ers)
            /\ \A j \in 1..Len(parse.ers) : parse'.ers[j].n = parse.ers[j].n
            /\ Len(parse'.errs) >= Len(parse.errs) /\ SubSeq(parse'.errs, 1, Len(parse.errs)) = parse.errs]_vars
=============================================================================
