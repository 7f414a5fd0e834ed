------------------------------ MODULE F15Session ------------------------------
(***************************************************************************)
(* A program using the library: several parser and tokenizer objects, any  *)
(* number of token lists and extracted sequences, used in any order.       *)
(*   tkz    tokenizer objects: the field each holds last                   *)
(*   lists  token lists: field, cursor, and whether their tokens have been *)
(*          given kinds                                                    *)
(*   seqs   extracted sequences: the list each was parsed from, and result *)
(* An operation is <<name, a, b>>:                                         *)
(*   lex t f   tokenizer t tokenizes field f: a new token list             *)
(*   parse p l parser p parses list l into a new sequence                  *)
(*   read s    all getters of sequence s;  export s: its XML and listing   *)
(*   tokens l  texts and positions of list l                               *)
(*   walk l    the cursor of list l is moved to its end by the user        *)
(*   edit l f  the user turns list l, token by token, into that of field f *)
(*   build     a sequence is made and filled by hand, without a parse      *)
(* FieldOf(f) is the field with number f, Meaning(f) what parsing f gives. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Meaning(_), Content(_)

NewSession == [tkz |-> [t \in 1..2 |-> 0], lists |-> <<>>, seqs |-> <<>>]

SessionApply(st, op) ==
  CASE op[1] = "lex"   -> [st EXCEPT !.tkz[op[2]] = op[3], !.lists = Append(@, [f |-> op[3], cur |-> 0, kinds |-> FALSE])]
    [] op[1] = "parse" -> [st EXCEPT !.lists[op[3]].cur = 99, !.lists[op[3]].kinds = TRUE,
                                     !.seqs = Append(@, [l |-> op[3], res |-> Meaning(st.lists[op[3]].f)])]
    [] op[1] = "walk"  -> [st EXCEPT !.lists[op[2]].cur = 99]
    [] op[1] = "edit"  -> [st EXCEPT !.lists[op[2]].f = op[3], !.lists[op[2]].kinds = FALSE]
    [] op[1] \in {"read", "export", "tokens", "build"} -> st
SessionReturns(st, op) ==
  CASE op[1] \in {"lex", "edit"} -> Content(op[3])
    [] op[1] = "tokens" -> Content(st.lists[op[2]].f)
    [] op[1] = "parse"  -> Meaning(st.lists[op[3]].f)
    [] op[1] \in {"read", "export"} -> st.seqs[op[2]].res
    [] OTHER -> 0
Enabled(st, op) ==
  CASE op[1] = "parse" -> op[3] \in 1..Len(st.lists)
    [] op[1] \in {"tokens", "walk", "edit"} -> op[2] \in 1..Len(st.lists)
    [] op[1] \in {"read", "export"} -> op[2] \in 1..Len(st.seqs)
    [] OTHER -> TRUE
=============================================================================
