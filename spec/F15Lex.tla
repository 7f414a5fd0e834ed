------------------------------- MODULE F15Lex -------------------------------
(***************************************************************************)
(* The tokenizer.  Strings are sequences of character codes.               *)
(*                                                                         *)
(* LexStep reads one character; the tokenizer object keeps a string, a set *)
(* of delimiters and the list produced by the last tokenization.           *)
(***************************************************************************)
EXTENDS F15Text, SequencesExt

Slash == 47
DefaultDelims == {32, 10, 9, 13}

\* ------------------------------------------------- character by character --
LexStart == [pos |-> 1, word |-> <<>>, out |-> <<>>]
Save(out, w, e) == IF w = <<>> THEN out ELSE Append(out, [t |-> w, s |-> e - Len(w), e |-> e])
LexDone(f, x) == x.pos > Len(f) + 1
LexStep(f, ws, x) ==
  IF x.pos = Len(f) + 1 THEN [pos |-> x.pos + 1, word |-> <<>>, out |-> Save(x.out, x.word, Len(f))]
  ELSE LET c == f[x.pos] IN
    IF c \notin ws THEN [x EXCEPT !.pos = @ + 1, !.word = Append(@, c)]
    ELSE LET o == Save(x.out, x.word, x.pos - 1)
         IN  [pos |-> x.pos + 1, word |-> <<>>, out |-> IF c = Slash THEN Save(o, <<c>>, x.pos) ELSE o]
RECURSIVE LexFrom(_, _, _)
LexFrom(f, ws, x) == IF LexDone(f, x) THEN x.out ELSE LexFrom(f, ws, LexStep(f, ws, x))
Lex(f, ws) == LexFrom(f, ws, LexStart)
\* The same without reading one character after the other, for long texts: the k-th token begins
\* at the k-th place where one can begin and ends at the k-th place where one can end.
LexCuts(f, ws) ==
  LET n       == Len(f)
      inside  == {i \in 1..n : f[i] \notin ws}
      slashes == IF Slash \in ws THEN {i \in 1..n : f[i] = Slash} ELSE {}
      begins  == SetToSortSeq({i \in inside : i - 1 \notin inside} \cup slashes, LAMBDA a, b : a < b)
      ends    == SetToSortSeq({i \in inside : i + 1 \notin inside} \cup slashes, LAMBDA a, b : a < b)
  IN  [k \in 1..Len(begins) |-> [t |-> SubSeq(f, begins[k], ends[k]), s |-> begins[k] - 1, e |-> ends[k]]]
LexText(f, ws) == IF Len(f) > 500 THEN LexCuts(f, ws) ELSE Lex(f, ws)

\* ---------------------------------------------------------- the properties --
\* Maximal runs of non-delimiters and the slashes, as half open intervals.
IsRun(f, ws, s, e) ==
  /\ s < e /\ \A i \in (s + 1)..e : f[i] \notin ws
  /\ (s = 0 \/ f[s] \in ws) /\ (e = Len(f) \/ f[e + 1] \in ws)
Intervals(f, ws) ==
  {<<s, e>> \in (0..Len(f)) \X (0..Len(f)) : IsRun(f, ws, s, e)}
  \cup (IF Slash \in ws THEN {<<i - 1, i>> : i \in {j \in 1..Len(f) : f[j] = Slash}} ELSE {})
P_Partition(f, ws, out) ==
  /\ {<<out[x].s, out[x].e>> : x \in 1..Len(out)} = Intervals(f, ws)
  /\ \A x \in 1..(Len(out) - 1) : out[x].e <= out[x + 1].s
  /\ \A x \in 1..Len(out) : out[x].t = SubSeq(f, out[x].s + 1, out[x].e)
\* Layout: replacing delimiters other than '/' by each other, or repeating them, keeps the texts.
TextsOf(out) == [x \in 1..Len(out) |-> out[x].t]

\* ---------------------------------------------------- the tokenizer object --
\* lists: all token lists handed out so far; a new tokenization makes a new one.
NewTokenizer == [str |-> <<>>, ws |-> DefaultDelims, lists |-> <<<<>>>>]
Codeset(s) == {s[i] : i \in 1..Len(s)}
LexApply(st, op) ==
  CASE op[1] = "string"   -> [st EXCEPT !.str = op[2]]
    [] op[1] = "delims"   -> [st EXCEPT !.ws = Codeset(op[2])]
    [] op[1] = "tokenize" -> [st EXCEPT !.lists = Append(@, LexText(st.str, st.ws))]
    [] op[1] \in {"tokens", "again", "text"} -> st
\* What an operation must return.
LexReturns(st, op) ==
  CASE op[1] = "tokens" -> st.lists[Len(st.lists)]
    [] op[1] = "again"  -> st.lists[op[2]]
    [] op[1] = "text"   -> st.str
=============================================================================
