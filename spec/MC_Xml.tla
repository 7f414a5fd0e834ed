-------------------------------- MODULE MC_Xml --------------------------------
(* The reader accepts every document the writer makes of a small     *)
(* container, and objects to every document with one event left out, doubled,   *)
(* or exchanged with its neighbour, and to that of any other container.         *)
EXTENDS F15Xml
VARIABLES phase, content, ver, line, reader
vars == <<phase, content, ver, line, reader>>
Zero == <<0, 0, 0>>
Rec(name, text) == <<name, "0", "1", "1", "2", "N1", <<0, 12, 345678>>, "", Zero, <<1, 3, 995000>>, Zero, "IFR", "0", "", Zero, Zero, Zero, text>>
RecOf == [a |-> Rec("A", ""), b |-> Rec("A", "T"), d |-> Rec("B", "T")]
Ids == {"a", "d"}
Shapes == [der : {"I", ""}, recs : {<<a>> : a \in Ids} \cup {<<a, b>> : a, b \in Ids}, errs : {<<>>, <<"d", "a">>} \cup {<<a>> : a \in Ids}]
Content(d) == [der |-> d.der, recs |-> [i \in 1..Len(d.recs) |-> RecOf[d.recs[i]]], errs |-> [i \in 1..Len(d.errs) |-> RecOf[d.errs[i]]]]
ContentOf == [d \in Shapes |-> Content(d)]
DocOf == [d \in Shapes |-> EventsOf(Content(d))]
TextOrEmpty(e) == e[1] = "text" /\ e[2] = ""
\* event j of variant w of document d; variants are <<"drop"|"double"|"swap"|"same", i>> and <<"of", other shape>>
Event(d, w, j) == LET q == DocOf[d] IN
  CASE w[1] = "same" -> q[j]
    [] w[1] = "drop" -> IF j < w[2] THEN q[j] ELSE q[j + 1]
    [] w[1] = "double" -> IF j <= w[2] THEN q[j] ELSE q[j - 1]
    [] w[1] = "swap" -> IF j = w[2] THEN q[j + 1] ELSE IF j = w[2] + 1 THEN q[j - 1] ELSE q[j]
    [] w[1] = "of" -> DocOf[w[2]][j]
LenOf(d, w) == CASE w[1] = "drop" -> Len(DocOf[d]) - 1 [] w[1] = "double" -> Len(DocOf[d]) + 1
                 [] w[1] = "of" -> Len(DocOf[w[2]]) [] OTHER -> Len(DocOf[d])
Variants(d) == LET q == DocOf[d] S == {y \in 1..Len(q) : ~ TextOrEmpty(q[y])} IN
  ({"drop", "double"} \X S) \cup {<<"swap", y>> : y \in {z \in 1..(Len(q) - 1) : q[z] # q[z + 1]}}
  \cup {<<"of", e>> : e \in Shapes \ {d}}
Init ==
  \/ phase = "good" /\ content \in Shapes /\ ver = <<"same">> /\ line = 1 /\ reader = ReaderStart
  \/ phase = "bad" /\ content \in {d \in Shapes : d.der = "I"} /\ ver \in Variants(content) /\ line = 1 /\ reader = ReaderStart
Reading == reader.at # "lost" /\ line <= LenOf(content, ver) /\ reader' = Read(reader, Event(content, ver, line), ContentOf[content]) /\ line' = line + 1 /\ UNCHANGED <<phase, content, ver>>
Spec == Init /\ [][Reading]_vars
Inv_Good == (phase = "good" /\ line > LenOf(content, ver)) => reader.at = "end" /\ reader.bad = {}
Inv_Bad == (phase = "bad" /\ line > LenOf(content, ver)) => reader.at # "end" \/ reader.bad # {}
=============================================================================
