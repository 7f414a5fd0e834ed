------------------------------ MODULE F15Record ------------------------------
(***************************************************************************)
(* Route records (objects 1, 2) and tokens (objects 3, 4) as holders of    *)
(* values.  Every value is a text (numbers and kinds as they are written). *)
(* An operation is <<object, operation, value name, value>>:               *)
(*   make    a new object of text `value'; the value name says from where *)
(*           to where and, for a record, of what kind (Places)             *)
(*   set     a value is given (a stay time as HHMM)                        *)
(*   append  a text is added to the break or error text                    *)
(*   read    all values                                                    *)
(***************************************************************************)
EXTENDS F15Text
RecordValues == <<"name", "start", "end", "base", "sub", "speed", "speedSI", "level", "levelSI", "rules", "break", "error",
                  "stay", "target", "targetSI", "lat", "lon", "valid", "bearing", "distance">>
TokenValues == <<"name", "start", "end", "base", "sub">>
ValuesOf(o) == IF o <= 2 THEN RecordValues ELSE TokenValues
Range(s) == {s[i] : i \in 1..Len(s)}
\* What a constructor is given besides the text: start, end, kind, subtype (tokens have no kind yet).
Places == [name |-> <<"10", "20", "POINT", "PRP">>, origin |-> <<"0", "0", "SID", "SID_LITERAL">>,
           back |-> <<"4", "0", "UNKNOWN", "UNKNOWN">>, far |-> <<"5000", "5003", "TOO_LONG", "UNKNOWN">>]
\* A new object: what the constructor is given, and nothing else.
Fresh(o, text, p) == [v \in Range(ValuesOf(o)) |->
   CASE v = "name" -> text [] v = "start" -> Places[p][1] [] v = "end" -> Places[p][2]
     [] v = "base" -> IF o <= 2 THEN Places[p][3] ELSE "UNKNOWN"
     [] v = "sub" -> IF o <= 2 THEN Places[p][4] ELSE "UNKNOWN"
     [] v \in {"speed", "level", "rules", "break", "error", "target"} -> ""
     [] v \in {"speedSI", "levelSI", "stay", "targetSI", "lat", "lon", "bearing", "distance"} -> "0"
     [] v = "valid" -> "N"]
Minutes(hhmm) == ToString(60 * NumAt(hhmm, 1, 2) + NumAt(hhmm, 3, 4))
Objects == [o \in 1..4 |-> Fresh(o, "", "name")]
RecordApply(st, op) == LET o == op[1] v == op[3] x == op[4] IN
  CASE op[2] = "make"   -> [st EXCEPT ![o] = Fresh(o, x, v)]
    [] op[2] = "set"    -> [st EXCEPT ![o][v] = IF v = "stay" THEN Minutes(x) ELSE x]
    [] op[2] = "append" -> [st EXCEPT ![o][v] = IF @ = "" THEN x ELSE @ \o " " \o x]
    [] OTHER -> st
RecordReads(st, op) == [i \in 1..Len(ValuesOf(op[1])) |-> st[op[1]][ValuesOf(op[1])[i]]]
=============================================================================
