-------------------------------- MODULE F15Xml --------------------------------
(***************************************************************************)
(* The XML export.  A document is read as a sequence of events             *)
(*   <<"start", tag, <<<<attribute, value>>, ...>>>>  <<"text", text>>     *)
(*   <<"end", tag>>                                                        *)
(* by a reader that knows what the container holds and accepts an event    *)
(* only when it is the one the content calls for.                          *)
(*                                                                         *)
(* The content is  der, recs, errs  with each record a sequence            *)
(*  name start end base sub speed speedSI level levelSI bearing distance   *)
(*  rules stay target targetSI latitude longitude text                     *)
(* numbers being <<negative?, whole part, millionths>>.                    *)
(***************************************************************************)
EXTENDS F15Text

AttrNames == <<"", "start_index", "end_index", "base_type", "sub_type", "speed", "speed_si", "altitude",
               "altitude_si", "bearing", "distance", "flight_rules", "stay_time", "altitude_cruise_to",
               "altitude_cruise_to_si", "latitude", "longitude", "">>
Decimal == {7, 9, 10, 11, 15, 16, 17}        \* numbers, written with two decimals

\* ------------------------------------------------------------- numbers --
\* "[-]digits.dd" as <<negative?, whole, hundredths>>, "bad" for anything else
ReadDecimal(s) ==
  LET neg == Len(s) > 0 /\ Ch(s, 1) = "-"
      b == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      n == Len(b)
  IN  IF n < 4 \/ n > 11 THEN <<"bad">>
      ELSE IF Ch(b, n - 2) # "." THEN <<"bad">>
      ELSE LET w == Num(SubSeq(b, 1, n - 3)) h == Num(SubSeq(b, n - 1, n))
           IN  IF w < 0 \/ h < 0 THEN <<"bad">> ELSE <<IF neg THEN 1 ELSE 0, w, h>>
\* The text is the number v to two decimals.
ShowsNumber(s, v) ==
  LET d == ReadDecimal(s)
      sgn(x) == IF x[1] = 1 THEN -1 ELSE 1
  IN  /\ Len(d) = 3
      /\ \/ sgn(d) = sgn(v) \/ (d[2] = 0 /\ d[3] <= 1 /\ v[2] = 0 /\ v[3] <= 5001)
      /\ IF sgn(d) # sgn(v) THEN d[3] * 10000 + v[3] <= 5001
         ELSE LET w == d[2] - v[2] IN
              w \in -1..1 /\ LET x == w * 1000000 + d[3] * 10000 - v[3] IN x <= 5001 /\ x >= -5001

\* ------------------------------------------------------------- events --
AttrOf(attrs, name) == LET S == {x \in 1..Len(attrs) : attrs[x][1] = name}
                       IN  IF S = {} THEN <<>> ELSE <<attrs[CHOOSE x \in S : TRUE][2]>>
Carries(attrs, r, textName) == {x \in 2..18 :
   LET n == IF x = 18 THEN textName ELSE AttrNames[x]
       a == AttrOf(attrs, n)
   IN  a = <<>> \/ ~ (IF x \in Decimal THEN ShowsNumber(a[1], r[x]) ELSE a[1] = r[x])}

\* The reader: where it is, how many records and errors it has read, what it objects to.
ReaderStart == [at |-> "document", recs |-> 0, errs |-> 0, text |-> "", bad |-> {}]
Ends(ev, tag) == ev[1] = "end" /\ ev[2] = tag
Object(x, what) == [x EXCEPT !.bad = @ \cup {what}, !.at = "lost"]
Read(x, ev, c) ==
  LET kind == ev[1] IN
  CASE x.at = "document" -> IF kind = "start" /\ ev[2] = "ers" THEN [x EXCEPT !.at = "ers"] ELSE Object(x, "root")
    [] x.at = "ers" -> IF kind = "start" /\ ev[2] = "derived_flight_rules" THEN [x EXCEPT !.at = "rules", !.text = ""]
                       ELSE Object(x, "derived-rules-missing")
    [] x.at = "rules" -> IF kind = "text" THEN [x EXCEPT !.text = @ \o ev[2]]
                         ELSE IF Ends(ev, "derived_flight_rules") /\ x.text = c.der THEN [x EXCEPT !.at = "elements"] ELSE Object(x, "derived-rules")
    [] x.at = "elements" ->
         IF kind = "start" /\ ev[2] = "ers_record"
         THEN IF x.recs = Len(c.recs) THEN Object(x, "record-too-many")
              ELSE LET n == x.recs + 1 miss == Carries(ev[3], c.recs[n], "break_text")
                   IN  IF miss = {} THEN [x EXCEPT !.at = "element", !.recs = n, !.text = ""]
                       ELSE Object(x, "record-" \o ToString(n) \o "-value-" \o ToString(CHOOSE y \in miss : \A z \in miss : y <= z))
         ELSE IF kind = "start" /\ ev[2] = "ers_errors" THEN
              IF x.recs = Len(c.recs) /\ c.errs # <<>> THEN [x EXCEPT !.at = "errors"]
              ELSE Object(x, "error-section")
         ELSE IF Ends(ev, "ers") THEN
              IF x.recs = Len(c.recs) /\ c.errs = <<>> THEN [x EXCEPT !.at = "end"]
              ELSE Object(x, "record-or-error-section-missing")
         ELSE Object(x, "elements")
    [] x.at = "element" -> IF kind = "text" THEN [x EXCEPT !.text = @ \o ev[2]]
         ELSE IF Ends(ev, "ers_record") /\ x.text = c.recs[x.recs][1] THEN [x EXCEPT !.at = "elements"]
         ELSE Object(x, "record-" \o ToString(x.recs) \o "-name")
    [] x.at = "errors" ->
         IF kind = "start" /\ ev[2] = "error_record"
         THEN IF x.errs = Len(c.errs) THEN Object(x, "error-too-many")
              ELSE LET n == x.errs + 1 miss == Carries(ev[3], c.errs[n], "error_text")
                   IN  IF miss = {} THEN [x EXCEPT !.at = "error", !.errs = n, !.text = ""]
                       ELSE Object(x, "error-" \o ToString(n) \o "-value-" \o ToString(CHOOSE y \in miss : \A z \in miss : y <= z))
         ELSE IF Ends(ev, "ers_errors") THEN
              IF x.errs = Len(c.errs) THEN [x EXCEPT !.at = "afterErrors"] ELSE Object(x, "error-missing")
         ELSE Object(x, "errors")
    [] x.at = "error" -> IF kind = "text" THEN [x EXCEPT !.text = @ \o ev[2]]
         ELSE IF Ends(ev, "error_record") /\ x.text = c.errs[x.errs][1] THEN [x EXCEPT !.at = "errors"]
         ELSE Object(x, "error-" \o ToString(x.errs) \o "-name")
    [] x.at = "afterErrors" -> IF Ends(ev, "ers") THEN [x EXCEPT !.at = "end"] ELSE Object(x, "after-errors")
    [] x.at = "end" -> Object(x, "after-document")
    [] x.at = "lost" -> x

\* ------------------------------------------------------------- the writer --
\* As event sequence (used to check that writer and reader fit) ...
TwoDec(n) == LET h == (n[3] + 5000) \div 10000 w == n[2] + h \div 100 g == h % 100
             IN  (IF n[1] = 1 THEN "-" ELSE "") \o ToString(w) \o "." \o (IF g < 10 THEN "0" ELSE "") \o ToString(g)
AttrsOf(r, an) == [y \in 1..17 |-> IF y = 17 THEN <<an, r[18]>>
                   ELSE <<AttrNames[y + 1], IF (y + 1) \in Decimal THEN TwoDec(r[y + 1]) ELSE r[y + 1]>>]
EachRecord(rs, tag, an) == [n \in 1..(3 * Len(rs)) |->
  LET r == rs[(n + 2) \div 3] IN
  CASE n % 3 = 1 -> <<"start", tag, AttrsOf(r, an)>> [] n % 3 = 2 -> <<"text", r[1]>> [] n % 3 = 0 -> <<"end", tag>>]
EventsOf(c) ==
  <<<<"start", "ers", <<>>>>, <<"start", "derived_flight_rules", <<>>>>, <<"text", c.der>>, <<"end", "derived_flight_rules">>>>
  \o EachRecord(c.recs, "ers_record", "break_text")
  \o (IF c.errs = <<>> THEN <<>> ELSE <<<<"start", "ers_errors", <<>>>>>> \o EachRecord(c.errs, "error_record", "error_text") \o <<<<"end", "ers_errors">>>>)
  \o <<<<"end", "ers">>>>

\* ... and character by character: escaping of texts, over character codes.
Amp == Codes("&amp;")  Lt == Codes("&lt;")  Gt == Codes("&gt;")  Quot == <<38>> \o Codes("quot;")
CharRef(n) == <<38, 35>> \o Codes(ToString(n)) \o <<59>>
EscapeChar(ch) == CASE ch = 38 -> Amp [] ch = 60 -> Lt [] ch = 62 -> Gt [] ch = 34 -> Quot
                    [] ch \in {9, 10, 13} -> CharRef(ch) [] OTHER -> <<ch>>
RECURSIVE EscapeFrom(_, _)
EscapeFrom(s, i) == IF i > Len(s) THEN <<>> ELSE EscapeChar(s[i]) \o EscapeFrom(s, i + 1)
Escape(s) == EscapeFrom(s, 1)
\* What an XML processor makes of raw characters: white space in attributes becomes a blank,
\* a carriage return in content a line feed; references stand for their character.
Entities == <<<<Amp, 38>>, <<Lt, 60>>, <<Gt, 62>>, <<Quot, 34>>, <<CharRef(9), 9>>, <<CharRef(10), 10>>, <<CharRef(13), 13>>>>
StartsAt(p, s, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
\* One reading step: <<number of characters read, character code read or -1 when ill-formed>>
ReadChar(s, i, attribute) ==
  IF s[i] = 60 \/ (attribute /\ s[i] = 34) THEN <<1, -1>>
  ELSE IF s[i] = 38 THEN
    LET S == {x \in 1..Len(Entities) : StartsAt(Entities[x][1], s, i)}
    IN  IF S = {} THEN <<1, -1>>
        ELSE LET x == CHOOSE x \in S : TRUE IN <<Len(Entities[x][1]), Entities[x][2]>>
  ELSE <<1, IF attribute /\ s[i] \in {9, 10, 13} THEN 32 ELSE IF s[i] = 13 THEN 10 ELSE s[i]>>
RECURSIVE UnescapeFrom(_, _, _, _)
UnescapeFrom(s, i, attribute, acc) ==     \* -1 in the result when the text is not well formed
  IF i > Len(s) THEN acc
  ELSE LET r == TLCEval(ReadChar(s, i, attribute))
       IN  UnescapeFrom(s, TLCEval(i + r[1]), attribute, TLCEval(Append(acc, r[2])))
Unescape(s, attribute) == UnescapeFrom(TLCEval(s), 1, attribute, <<>>)
=============================================================================
