------------------------------ MODULE MC_Listing ------------------------------
(* Reader and writer fit for every small container; leaving out or exchanging lines, *)
(* or printing another container, is noticed.                                        *)
EXTENDS F15Listing
VARIABLES phase, content, lines, line, reader
vars == <<phase, content, lines, line, reader>>
Cols(speed, level, rules, azimuth) == <<"4", "10", speed, "231", level, "10668", azimuth, "0.00", rules, "0", "", "0", "1.00", "2.00">>
Recs == {<<"ADEP", "0", "0", Cols("", "", "", "0.00"), <<>>>>, <<"PNT", "10", "13", Cols("N0450", "F350", "IFR", "90.00"), <<>>>>,
         <<"VFR", "14", "17", Cols("N0450", "F350", "VFR", "0.00"), <<"FREE", "TEXT">>>>}
Tokens == {<<"PNT", "10", "13", <<"4", "10">>, <<>>>>, <<"/", "13", "14", <<"1", "2">>, <<>>>>}
Containers == [list : {"ers"}, recs : {<<a>> : a \in Recs} \cup {<<a, b>> : a, b \in Recs} ,
               errs : {<<>>} \cup {<<a>> : a \in Recs} \cup {<<a, b>> : a, b \in Recs}]
   \cup [list : {"tokens"}, recs : {<<>>} \cup {<<a>> : a \in Tokens} \cup {<<a, b>> : a, b \in Tokens}, errs : {<<>>}]
\* columns wrong: a value left out, or two exchanged
Wrong(r) == LET S == {y \in 1..Len(r[4]) : r[4][y] # ""}
                T == {y \in 1..(Len(r[4]) - 1) : r[4][y] # r[4][y + 1] /\ r[4][y] # "" /\ r[4][y + 1] # ""}
            IN {[r EXCEPT ![4][y] = ""] : y \in S} \cup {[r EXCEPT ![4][y] = r[4][y + 1], ![4][y + 1] = r[4][y]] : y \in T}
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Swap(q, i) == [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]
Init == /\ line = 1 /\ reader = ReaderStart /\ content \in Containers
        /\ \/ phase = "good" /\ lines = LinesOf(content)
           \/ phase = "bad" /\ LET l == LinesOf(content) IN
                lines \in {Drop(l, i) : i \in 1..Len(l)} \cup {Swap(l, i) : i \in {y \in 1..(Len(l) - 1) : l[y] # l[y + 1]}}
                          \cup {LinesOf(d) : d \in Containers \ {content}}
                          \cup (IF content.recs = <<>> THEN {} ELSE {LinesOf([content EXCEPT !.recs[1] = w]) : w \in Wrong(content.recs[1])})
ReadLine == line <= Len(lines) /\ reader' = Read(reader, lines[line], content) /\ line' = line + 1 /\ UNCHANGED <<phase, content, lines>>
Spec == Init /\ [][ReadLine]_vars
Inv_Good == (phase = "good" /\ line > Len(lines)) => Finished(reader, content) /\ reader.bad = {}
Inv_Bad == (phase = "bad" /\ line > Len(lines)) => ~ Finished(reader, content) \/ reader.bad # {}
=============================================================================
