----------------------------- MODULE F15Observe -----------------------------
(***************************************************************************)
(* What must be seen of a parse from outside, property by property:        *)
(* relates a final state m of the specification over token list T to an    *)
(* observation o of the implementation (see Trace_Parser for its layout).  *)
(***************************************************************************)
EXTENDS F15Parser, F15Num, F15Messages, F15Grammar, F15Fits

\* ------------------------------------------------- the observed records --
R_n(r) == r[1]      R_s(r) == r[2]      R_e(r) == r[3]      R_b(r) == r[4]     R_u(r) == r[5]
R_sp(r) == r[6]     R_spsi(r) == r[7]   R_al(r) == r[8]     R_alsi(r) == r[9]  R_rules(r) == r[10]
R_bt(r) == r[11]    R_stay(r) == r[12]  R_ct(r) == r[13]    R_ctsi(r) == r[14]
R_lat(r) == r[15]   R_lon(r) == r[16]   R_valid(r) == r[17] R_brg(r) == r[18]  R_dist(r) == r[19]
E_n(r) == r[1]      E_s(r) == r[2]      E_e(r) == r[3]      E_b(r) == r[4]     E_u(r) == r[5]    E_msg(r) == r[6]

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == a > -2000000000 /\ Abs(a - b) <= tol       \* not a sentinel, and close
NearMinutes(deg, min) == Abs(deg) <= 20000000 /\ Abs(3 * deg - 5000 * min) <= 3
Idx(s) == 1..Len(s)
MapSeq(s, Op(_)) == [x \in Idx(s) |-> Op(s[x])]

\* ------------------------------------------------------ expected records --
X_s(T, r) == IF r.i = 0 THEN 0 ELSE T[r.i].s
X_e(T, r) == IF r.i = 0 THEN 0 ELSE T[r.i].e
X_id(T, r) == <<r.n, X_s(T, r), X_e(T, r)>>
O_id(r) == <<R_n(r), R_s(r), R_e(r)>>

\* Which observed record shows expected record j: by position when both sequences have
\* the same names, otherwise by text and position; 0 when there is none.
Align(T, m, o) ==
  IF Len(m.ers) = Len(o.ers) /\ \A j \in Idx(m.ers) : m.ers[j].n = R_n(o.ers[j])
  THEN [j \in Idx(m.ers) |-> j]
  ELSE [j \in Idx(m.ers) |->
         LET S == {x \in Idx(o.ers) : O_id(o.ers[x]) = X_id(T, m.ers[j])}
         IN  IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y]

\* Expected errors as <<start, message>>; observed ones likewise.
X_err(T, e) == IF e[1] = 0 THEN <<0, MessageFor(e[2], "NULL")>> ELSE <<T[e[1]].s, MessageFor(e[2], T[e[1]].t)>>
XErrs(T, m) == MapSeq(m.errs, LAMBDA e : X_err(T, e))
OErrs(o) == MapSeq(o.errs, LAMBDA r : <<E_s(r), E_msg(r)>>)
\* ... restricted to the given message numbers
XErrsOf(T, m, S) == MapSeq(SelectSeq(m.errs, LAMBDA e : e[2] \in S), LAMBDA e : X_err(T, e))
Numbered(r, S) == \E n \in S : MessageFor(n, E_n(r)) = E_msg(r)
OErrsOf(o, S) == MapSeq(SelectSeq(o.errs, LAMBDA r : Numbered(r, S)), LAMBDA r : <<E_s(r), E_msg(r)>>)
OErrsWithout(o, S) == MapSeq(SelectSeq(o.errs, LAMBDA r : ~ Numbered(r, S)), LAMBDA r : <<E_s(r), E_msg(r)>>)

AngleErrors == {42, 43, 44, 45, 46}
CruiseErrors == {9, 18, 26, 27, 28, 29, 52}
StayErrors == {10, 15, 35, 36, 37, 38, 39}
SidStarErrors == {30, 31, 32, 34, 54}
BreakErrors == {6, 7, 8, 22}

Tag(cond, name) == IF cond THEN {} ELSE {name}
\* all aligned records satisfy Ok(expected, observed, index)
All(m, o, A, name, Ok(_, _, _)) ==
  LET bad == {j \in Idx(m.ers) : A[j] # 0 /\ ~ Ok(m.ers[j], o.ers[A[j]], j)}
  IN  IF bad = {} THEN {} ELSE {name \o "@" \o ToString(CHOOSE x \in bad : \A y \in bad : x <= y)}
ElemBase(T, r) == IF r.i = 0 THEN "" ELSE T[r.i].k.b
TokenOf(T, j, m) == T[m.ers[j].i]

\* -------------------------------------------------------------- clauses --
Raised(o) == o.x # ""

C03(T, m, o, c, A) ==
  IF Raised(o) THEN {"C03.raised-" \o o.x} ELSE LET n == Len(o.ers)
    frame(r, name) == R_n(r) = name /\ R_s(r) = 0 /\ R_e(r) = 0 /\ R_b(r) = "POINT"
  IN  IF n < 2 THEN {"C03.too-few-records"} ELSE
      Tag(frame(o.ers[1], "ADEP"), "C03.first-is-not-ADEP")
  \cup Tag(frame(o.ers[n], "ADES"), "C03.last-is-not-ADES")
  \cup Tag(\A x \in 2..(n - 1) : R_e(o.ers[x]) > 0, "C03.placeholder-inside")
  \cup Tag(Len(T) > 0 \/ (n = 2 /\ o.der = "" /\ OErrs(o) = <<<<0, MessageTable[41]>>>>), "C03.empty-field")

\* one documented message about one token of the field
ErrIsToken(T, r) ==
  \/ Len(T) = 0 /\ <<E_n(r), E_s(r), E_e(r)>> = <<"NULL", 0, 0>> /\ E_b(r) = "UNKNOWN"
  \/ \E k \in Idx(T) : /\ T[k].t = E_n(r) /\ T[k].s = E_s(r) /\ T[k].e = E_e(r)
                       /\ T[k].k.b = E_b(r) /\ T[k].k.u = E_u(r)
C04(T, m, o, c, A) ==
       Tag(o.ret = (IF o.errs = <<>> THEN "T" ELSE "F"), "C04.verdict")
  \cup Tag(\A x \in Idx(o.errs) : ErrIsToken(T, o.errs[x]), "C04.names-no-token")
  \cup Tag(\A x \in Idx(o.errs) : NumbersOf(E_msg(o.errs[x]), E_n(o.errs[x])) # {}, "C04.undocumented-message")
  \cup Tag(\A x \in 1..(Len(o.errs) - 1) : E_s(o.errs[x]) <= E_s(o.errs[x + 1]), "C04.order")
  \cup Tag((o.errs = <<>>) = (m.errs = <<>>), "C04.error-missed-or-invented")
  \cup Tag(Len(m.errs) # Len(o.errs)
           \/ (\E x \in Idx(m.errs) : m.errs[x][1] # 0 /\ m.errs[x][2] \notin NumbersOf(E_msg(o.errs[x]), E_n(o.errs[x])))
           \/ XErrs(T, m) = OErrs(o), "C04.wrong-token")

TrueOf(T, o, r) ==
  \E k \in {0} \cup Idx(T) :
    /\ IF k = 0 THEN T = <<>> ELSE T[k].s = E_s(r) /\ T[k].e = E_e(r)
    /\ LET S == {x \in Idx(o.ers) : x = 1 \/ (R_e(o.ers[x]) > 0 /\ R_s(o.ers[x]) < E_s(r))}
           last == IF S = {} THEN "" ELSE R_u(o.ers[CHOOSE x \in S : \A y \in S : y <= x])
       IN  \E n \in NumbersOf(E_msg(r), E_n(r)) : Fits(T, last, k, n)
C05(T, m, o, c, A) ==
       Tag(XErrsOf(T, m, MessageNumbers \ AngleErrors) = OErrsWithout(o, AngleErrors), "C05.errors")
  \* and, without the machine: what is reported is true, and nothing is reported exactly on correct fields
  \cup Tag((\A k \in Idx(T) : T[k].k.sem = <<>>) => (o.errs = <<>> <=> Correct(T)), "C05.language")
  \cup Tag(\A x \in Idx(o.errs) : TrueOf(T, o, o.errs[x]), "C05.untrue")

InSidStar == {"SID", "STAR", "SID_STAR"}
C06(T, m, o, c, A) ==
       Tag(MapSeq(m.ers, LAMBDA r : X_id(T, r)) = MapSeq(o.ers, LAMBDA r : O_id(r)), "C06.sequence")
  \cup All(m, o, A, "C06.kind", LAMBDA r, q, j :
         r.i = 0 \/ T[r.i].k.b \in InSidStar \/ (R_b(q) = r.b /\ R_u(q) = r.u))

\* tokens an observed result accounts for
RECURSIVE WordRun(_, _, _, _)
WordRun(T, bt, k, text) ==   \* the tokens from k on that make up break text bt
  IF k > Len(T) THEN {}
  ELSE LET next == IF text = "" THEN T[k].t ELSE text \o " " \o T[k].t
       IN  IF Len(next) > Len(bt) THEN {}
           ELSE {k} \cup WordRun(T, bt, k + 1, next)
ObservedTokens(T, o) ==
  LET recs == {k \in Idx(T) : \E x \in Idx(o.ers) : R_s(o.ers[x]) = T[k].s /\ R_e(o.ers[x]) = T[k].e}
      errs == {k \in Idx(T) : \E x \in Idx(o.errs) : E_s(o.errs[x]) = T[k].s /\ E_e(o.errs[x]) = T[k].e}
      brk  == UNION {UNION {IF R_bt(o.ers[x]) # "" /\ T[k].s = R_s(o.ers[x]) /\ T[k].e = R_e(o.ers[x])
                            THEN WordRun(T, R_bt(o.ers[x]), k + 1, "") ELSE {} : k \in Idx(T)} : x \in Idx(o.ers)}
  IN  recs \cup errs \cup brk
ExpectedTokens(m) ==
  {m.ers[j].i : j \in Idx(m.ers)} \cup {m.errs[x][1] : x \in Idx(m.errs)}
  \cup UNION {{m.ers[j].bt[x] : x \in Idx(m.ers[j].bt)} : j \in Idx(m.ers)}
\* a modifier leaves its mark on some element (unless a later one supersedes it there)
Marks(T, m, k) ==
  CASE T[k].k.b \in Modifiers -> \E j \in Idx(m.ers) : m.ers[j].sp = T[k].k.sp /\ m.ers[j].al = T[k].k.al
    [] T[k].k.b = "STAY_TIME" -> \E j \in Idx(m.ers) : m.ers[j].stay = T[k].k.mins
    [] OTHER -> FALSE
MarksSeen(T, o, k) ==
  CASE T[k].k.b \in Modifiers -> \E x \in Idx(o.ers) : R_sp(o.ers[x]) = T[k].k.sp /\ R_al(o.ers[x]) = T[k].k.al
    [] T[k].k.b = "STAY_TIME" -> \E x \in Idx(o.ers) : R_stay(o.ers[x]) = T[k].k.mins
MayLeaveNoTrace == Modifiers \cup {"SLASH", "C", "TRUNCATE", "BREAK_END", "STAY", "STAY_TIME"}
C07(T, m, o, c, A) ==
  LET seen == ObservedTokens(T, o)
      lost == {k \in Idx(T) \ seen : \/ k \in ExpectedTokens(m)
                                     \/ T[k].k.b \notin MayLeaveNoTrace
                                     \/ Marks(T, m, k) /\ ~ MarksSeen(T, o, k)}
  IN  IF lost = {} THEN {} ELSE {"C07.lost@" \o ToString(CHOOSE x \in lost : \A y \in lost : x <= y)}

C08(T, m, o, c, A) ==
       All(m, o, A, "C08.speed-level", LAMBDA r, q, j : R_sp(q) = r.sp /\ R_al(q) = r.al)
  \* the SI values are those of the same modifier
  \cup All(m, o, A, "C08.si", LAMBDA r, q, j :
         \/ /\ j > 1 /\ A[j - 1] # 0 /\ m.ers[j - 1].sp = r.sp /\ m.ers[j - 1].al = r.al
            /\ R_spsi(o.ers[A[j - 1]]) = R_spsi(q) /\ R_alsi(o.ers[A[j - 1]]) = R_alsi(q)     \* judged there
         \/ /\ R_alsi(q) \in {100 * v : v \in LevelSI(r.al)}
            /\ R_spsi(q) % 100 = 0 /\ SpeedSIOK(r.sp, r.al, R_spsi(q) \div 100))

C09(T, m, o, c, A) ==
  LET bad == {x \in Idx(o.ers) : LET q == o.ers[x] IN
               \/ R_alsi(q) % 100 # 0 \/ (R_alsi(q) \div 100) \notin LevelSI(R_al(q))
               \/ R_spsi(q) % 100 # 0 \/ ~ SpeedSIOK(R_sp(q), R_al(q), R_spsi(q) \div 100)
               \/ R_ctsi(q) % 100 # 0 \/ (R_ctsi(q) \div 100) \notin LevelSI(R_ct(q))}
  IN  IF bad = {} THEN {} ELSE {"C09.si@" \o ToString(CHOOSE x \in bad : \A y \in bad : x <= y)}

C10(T, m, o, c, A) ==
  All(m, o, A, "C10.rules", LAMBDA r, q, j : R_rules(q) = r.rules)

C11(T, m, o, c, A) ==
  LET some(x) == \E y \in Idx(o.ers) : R_rules(o.ers[y]) = x
      v == Len(T) > 0 /\ T[1].k.b = "SPEED_VFR"
  IN  Tag(o.der = (IF Len(T) = 0 THEN "" ELSE IF v THEN (IF some("IFR") THEN "Z" ELSE "V")
                   ELSE (IF some("VFR") THEN "Y" ELSE "I")), "C11.derived-from-elements")
 \cup Tag(o.der = m.der, "C11.derived")

LLTokens == {"LL_DEG", "LL_MIN"}
C12(T, m, o, c, A) ==
       All(m, o, A, "C12.valid", LAMBDA r, q, j : R_valid(q) = (IF r.pos THEN "Y" ELSE "N"))
  \cup All(m, o, A, "C12.coordinates", LAMBDA r, q, j :
         (r.pos /\ r.u \in LLTokens) =>
            NearMinutes(R_lat(q), T[r.i].k.ll.lat) /\ NearMinutes(R_lon(q), T[r.i].k.ll.lon))
  \cup Tag(XErrsOf(T, m, AngleErrors) = OErrsOf(o, AngleErrors), "C12.angle-errors")
  \cup Tag(\A x \in Idx(o.ers) : R_valid(o.ers[x]) = "Y" => R_e(o.ers[x]) > 0 /\ R_b(o.ers[x]) = "POINT", "C12.valid-without-coordinates")

\* the geodesic recorded between located tokens i and j of case c
Geo(c, i, j) == LET S == {x \in Idx(c.g) : c.g[x][1] = i /\ c.g[x][2] = j} IN c.g[CHOOSE x \in S : TRUE]
AzimuthNear(a, b) == a > -2000000000 /\ LET d == (a - b) % 36000000 IN d <= 3 \/ d >= 36000000 - 3
Measured(c, r, q) ==
  IF r.az = 0 THEN R_brg(q) = 0 /\ R_dist(q) = 0
  ELSE LET g == Geo(c, r.i, r.az) IN
       /\ Near(R_dist(q), g[4], 2)
       /\ (g[5] = 1 => AzimuthNear(R_brg(q), g[3]))
C13(T, m, o, c, A) ==
       All(m, o, A, "C13.azimuth-distance", LAMBDA r, q, j : Measured(c, r, q))

C14(T, m, o, c, A) ==
       All(m, o, A, "C14.target", LAMBDA r, q, j : R_ct(q) = r.ct /\ R_ctsi(q) \in {100 * v : v \in LevelSI(r.ct)})
  \cup All(m, o, A, "C14.speed-level", LAMBDA r, q, j : r.ct # "" =>
         R_sp(q) = r.sp /\ R_al(q) = r.al /\ R_alsi(q) \in {100 * v : v \in LevelSI(r.al)}
         /\ SpeedSIOK(r.sp, r.al, R_spsi(q) \div 100))
  \cup Tag(XErrsOf(T, m, CruiseErrors) = OErrsOf(o, CruiseErrors), "C14.errors")
  \cup Tag(MapSeq(SelectSeq(m.ers, LAMBDA r : r.b = "C"), LAMBDA r : X_id(T, r))
           = MapSeq(SelectSeq(o.ers, LAMBDA r : R_n(r) = "C"), LAMBDA r : O_id(r)), "C14.C-points")
  \cup Tag(\A j \in Idx(m.ers) : m.ers[j].ct # "" => A[j] # 0, "C14.point-missing")

C15(T, m, o, c, A) ==
       All(m, o, A, "C15.stay", LAMBDA r, q, j : R_stay(q) = r.stay)
  \cup Tag(XErrsOf(T, m, StayErrors) = OErrsOf(o, StayErrors), "C15.errors")
  \cup Tag(\A x \in Idx(o.ers) : R_b(o.ers[x]) \notin {"STAY", "STAY_TIME"}, "C15.recorded-as-element")
  \cup Tag(\A j \in Idx(m.ers) : m.ers[j].stay > 0 => A[j] # 0, "C15.point-missing")

C16(T, m, o, c, A) ==
  LET exp == SelectSeq(m.ers, LAMBDA r : r.i > 0 /\ T[r.i].k.b \in InSidStar)
      is(r) == \E k \in Idx(T) : T[k].s = R_s(r) /\ T[k].e = R_e(r) /\ T[k].k.b \in InSidStar
      obs == SelectSeq(o.ers, LAMBDA r : R_e(r) > 0 /\ is(r))
  IN  Tag(MapSeq(exp, LAMBDA r : X_id(T, r) \o <<r.b, r.u>>) = MapSeq(obs, LAMBDA r : O_id(r) \o <<R_b(r), R_u(r)>>), "C16.sid-star")
 \cup Tag(XErrsOf(T, m, SidStarErrors) = OErrsOf(o, SidStarErrors), "C16.errors")

Words(T, r) == Join([x \in Idx(r.bt) |-> T[r.bt[x]].t])
OverLong == {4}
C24(T, m, o, c, A) ==
       All(m, o, A, "C24.break-text", LAMBDA r, q, j : R_bt(q) = Words(T, r))
  \cup Tag(XErrsOf(T, m, BreakErrors) = OErrsOf(o, BreakErrors), "C24.errors")
  \cup Tag(\A j \in Idx(m.ers) : m.ers[j].bt # <<>> => A[j] # 0, "C24.section-missing")
  \* what follows the section is parsed again: the same elements stand outside it
  \cup Tag((\A j \in Idx(m.ers) : m.ers[j].bt = <<>>)
           \/ {m.ers[j].n : j \in Idx(m.ers)} = {R_n(o.ers[x]) : x \in Idx(o.ers)}, "C24.section-extent")

BDKinds == {"PRP_BD", "LLBD_DEG", "LLBD_MIN"}
Pos(c, i) == LET S == {x \in Idx(c.p) : c.p[x][1] = i} IN c.p[CHOOSE x \in S : TRUE]
C25(T, m, o, c, A) ==
  LET bd(k) == T[k].k.u \in BDKinds
      xerr == SelectSeq(m.errs, LAMBDA e : e[1] > 0 /\ bd(e[1]) /\ e[2] \in AngleErrors)
      oerr == SelectSeq(o.errs, LAMBDA r : E_u(r) \in BDKinds /\ Numbered(r, AngleErrors))
  IN   All(m, o, A, "C25.position", LAMBDA r, q, j : (r.u \in BDKinds) =>
         IF r.pos THEN /\ R_valid(q) = "Y"
                       /\ Near(R_lat(q), Pos(c, r.i)[2], 2)
                       /\ LET d == (R_lon(q) - Pos(c, r.i)[3]) % 36000000
                          IN  Abs(Pos(c, r.i)[2]) > 8999000 \/ d <= 3 \/ d >= 36000000 - 3
                       /\ Abs(R_lat(q)) <= 9000000 /\ Abs(R_lon(q)) <= 18000000
         ELSE R_valid(q) = "N")
  \cup All(m, o, A, "C25.measured", LAMBDA r, q, j :
         (r.az # 0 /\ (bd(r.i) \/ bd(r.az))) => Measured(c, r, q))
  \cup Tag(MapSeq(xerr, LAMBDA e : X_err(T, e)) = MapSeq(oerr, LAMBDA r : <<E_s(r), E_msg(r)>>), "C25.errors")
  \cup Tag(\A j \in Idx(m.ers) : m.ers[j].u \in BDKinds => A[j] # 0, "C25.point-missing")

\* A property about values is only touched by an exception when the field has such a value.
Concerns(p, T, m) ==
  CASE p \in {"C08", "C09"} -> \E j \in Idx(m.ers) : m.ers[j].sp # ""
    [] p = "C12" -> \E j \in Idx(m.ers) : m.ers[j].u \in LatLongKinds
    [] p = "C13" -> \E j \in Idx(m.ers) : m.ers[j].az # 0
    [] p = "C14" -> \E k \in Idx(T) : T[k].k.b = "C" \/ T[k].k.ct # ""
    [] p = "C15" -> \E k \in Idx(T) : T[k].k.b \in {"STAY", "STAY_TIME"}
    [] p = "C16" -> \E k \in Idx(T) : T[k].k.b \in InSidStar
    [] p = "C24" -> \E k \in Idx(T) : T[k].k.b \in {"BREAK_START", "BREAK_END", "SPEED_VFR"}
    [] p = "C25" -> \E k \in Idx(T) : T[k].k.u \in BDKinds
    [] OTHER -> Len(T) > 0

Judged == <<"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C24", "C25">>
Failures(p, T, m, o, c) ==
  IF p # "C03" /\ Raised(o) THEN (IF Concerns(p, T, m) THEN {p \o ".raised-" \o o.x} ELSE {})
  ELSE LET A == Align(T, m, o) IN
  CASE p = "C03" -> C03(T, m, o, c, A)
    [] p = "C04" -> C04(T, m, o, c, A)
    [] p = "C05" -> C05(T, m, o, c, A)
    [] p = "C06" -> C06(T, m, o, c, A)
    [] p = "C07" -> C07(T, m, o, c, A)
    [] p = "C08" -> C08(T, m, o, c, A)
    [] p = "C09" -> C09(T, m, o, c, A)
    [] p = "C10" -> C10(T, m, o, c, A)
    [] p = "C11" -> C11(T, m, o, c, A)
    [] p = "C12" -> C12(T, m, o, c, A)
    [] p = "C13" -> C13(T, m, o, c, A)
    [] p = "C14" -> C14(T, m, o, c, A)
    [] p = "C15" -> C15(T, m, o, c, A)
    [] p = "C16" -> C16(T, m, o, c, A)
    [] p = "C24" -> C24(T, m, o, c, A)
    [] p = "C25" -> C25(T, m, o, c, A)
=============================================================================
