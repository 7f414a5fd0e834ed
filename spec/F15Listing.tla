------------------------------ MODULE F15Listing ------------------------------
(***************************************************************************)
(* The printed listings.  A line is a sequence of words.  The reader knows *)
(* the content and accepts line by line what it calls for.                 *)
(*  - the extracted route sequence ("ers"): recs, errs, each a sequence    *)
(*    <<name, start, end, columns, words of the text>>, the columns being  *)
(*    base kind, sub kind, speed, SI speed, level, SI level, azimuth,      *)
(*    distance, rules, stay time, target, SI target, latitude, longitude;  *)
(*  - the token list ("tokens"): recs only, columns base and sub kind.     *)
(* Columns may run together when a value fills its column, but each value  *)
(* is there, whole, in order, and nothing else.                            *)
(***************************************************************************)
EXTENDS F15Text
HeaderLines == 2
RECURSIVE InOrder(_, _, _, _)      \* words ws[i..] occur in this order in line[k..]
InOrder(ws, i, line, k) ==
  IF i > Len(ws) THEN TRUE
  ELSE LET S == {y \in k..Len(line) : line[y] = ws[i]}
       IN  S # {} /\ InOrder(ws, i + 1, line, (CHOOSE y \in S : \A z \in S : y <= z) + 1)
NonEmpty(ws) == SelectSeq(ws, LAMBDA w : w # "")
RECURSIVE SqueezeAcc(_, _, _)
SqueezeAcc(ws, i, a) == IF i > Len(ws) THEN a ELSE SqueezeAcc(ws, i + 1, a \o ws[i])
Squeeze(ws) == SqueezeAcc(ws, 1, "")
Apart(cols) == IF Len(cols) = 14 THEN <<cols[3], cols[5], cols[9]>> ELSE cols       \* speed, level, rules
Shows(line, r) ==
  LET n == Len(line) t == r[5] body == SubSeq(line, 4, n - Len(t)) IN
  /\ n >= 3 + Len(t)
  /\ line[1] = r[1] /\ line[2] = r[2] /\ line[3] = r[3]
  /\ SubSeq(line, n - Len(t) + 1, n) = t
  /\ Squeeze(body) = Squeeze(r[4])
  /\ InOrder(NonEmpty(Apart(r[4])), 1, body, 1)
States(line, what, count) == Len(line) >= 2 /\ line[Len(line)] = ToString(count) /\ \E y \in 1..Len(line) : line[y] = what

Finished(x, c) == x.at = "end" \/ (c.list = "tokens" /\ x.at = "elements" /\ x.k = HeaderLines + Len(c.recs))
ReaderStart == [at |-> "total", k |-> 0, bad |-> {}]
Object(x, what) == [x EXCEPT !.bad = @ \cup {what}, !.at = "lost"]
AfterErrorTotal(c) == IF c.errs = <<>> THEN "end" ELSE "errorHeader"
Read(x, line, c) ==
  CASE x.at = "total" ->
         IF States(line, IF c.list = "ers" THEN "Records:" ELSE "Tokens:", Len(c.recs)) THEN [x EXCEPT !.at = "header", !.k = 0] ELSE Object(x, "element-count")
    [] x.at = "header" -> [x EXCEPT !.k = @ + 1, !.at = IF x.k + 1 = HeaderLines THEN "elements" ELSE "header"]
    [] x.at = "elements" ->
         LET n == x.k - HeaderLines + 1 IN
         IF n <= Len(c.recs) THEN (IF Shows(line, c.recs[n]) THEN [x EXCEPT !.k = @ + 1] ELSE Object(x, "element-" \o ToString(n)))
         ELSE IF line = <<>> THEN (IF c.list = "ers" THEN [x EXCEPT !.at = "errorTotal"] ELSE x) ELSE Object(x, "after-elements")
    [] x.at = "errorTotal" -> IF States(line, "Errors:", Len(c.errs)) THEN [x EXCEPT !.at = AfterErrorTotal(c), !.k = 0] ELSE Object(x, "error-count")
    [] x.at = "errorHeader" -> [x EXCEPT !.k = @ + 1, !.at = IF x.k + 1 = HeaderLines THEN "errors" ELSE "errorHeader"]
    [] x.at = "errors" ->
         LET n == x.k - HeaderLines + 1 IN
         IF Shows(line, c.errs[n]) THEN [x EXCEPT !.k = @ + 1, !.at = IF n = Len(c.errs) THEN "end" ELSE "errors"]
         ELSE Object(x, "error-" \o ToString(n))
    [] x.at = "end" -> IF line = <<>> THEN x ELSE Object(x, "after-listing")
    [] x.at = "lost" -> x
\* The writer, as lines.
Line(r) == <<r[1], r[2], r[3]>> \o NonEmpty(r[4]) \o r[5]
Table(rs) == <<<<"Head">>, <<"Head">>>> \o [i \in 1..Len(rs) |-> Line(rs[i])]
LinesOf(c) ==
  IF c.list = "tokens" THEN <<<<"Total", "Tokens:", ToString(Len(c.recs))>>>> \o Table(c.recs)
  ELSE <<<<"Total", "Records:", ToString(Len(c.recs))>>>> \o Table(c.recs)
       \o <<<<>>, <<"Total", "Errors:", ToString(Len(c.errs))>>>> \o (IF c.errs = <<>> THEN <<>> ELSE Table(c.errs))
=============================================================================
