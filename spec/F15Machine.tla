----------------------------- MODULE F15Machine -----------------------------
(* The parser as a TLA+ transition system: one named action per grammar node. *)
(* fid identifies the field being parsed, Field(fid) is its token list.           *)
EXTENDS F15Parser
CONSTANT Field(_)
VARIABLES fid, m
vars == <<fid, m>>
toks == Field(fid)

At(node, next) == m.node = node /\ m' = next /\ UNCHANGED fid

BeginField       == At("Start", StartNode(toks, m))
AfterAdep        == At("PostAdep", PostAdepNode(toks, m))
AfterPoint       == At("PostPoint", PostPointNode(toks, m))
AfterSid         == At("PostSid", PostSidNode(toks, m))
AfterDct         == At("PostDct", PostDctNode(toks, m))
AfterRoute       == At("PostRoute", PostRouteNode(toks, m))
AfterTruncate    == At("PostTruncate", PostTruncateNode(toks, m))
AfterSlash       == At("Slash", SlashNode(toks, m))
AfterStay        == At("Stay", StayNode(toks, m))
AfterStaySlash   == At("StaySlash", StaySlashNode(toks, m))
AfterStayTime    == At("PostStayTime", PostStayTimeNode(toks, m))
AfterC           == At("CruiseC", CruiseCNode(toks, m))
AfterCSlash      == At("CruiseSlash", CruiseSlashNode(toks, m))
AfterCruisePoint == At("PostCruisePoint", PostCruisePointNode(toks, m))
AfterCruiseSlash == At("PostCruiseSlash", PostCruiseSlashNode(toks, m))
FirstBreakText   == At("BreakFirst", BreakFirstNode(toks, m))
BreakText        == At("Break", BreakNode(toks, m))
Resynchronise    == At("Resync", ResyncNode(toks, m))
ResyncAfterSlash == At("ResyncSlash", ResyncSlashNode(toks, m))
Finish           == At("Done", FinishNode(toks, m))

Next == \/ BeginField \/ AfterAdep \/ AfterPoint \/ AfterSid \/ AfterDct \/ AfterRoute
        \/ AfterTruncate \/ AfterSlash \/ AfterStay \/ AfterStaySlash \/ AfterStayTime
        \/ AfterC \/ AfterCSlash \/ AfterCruisePoint \/ AfterCruiseSlash
        \/ FirstBreakText \/ BreakText \/ Resynchronise \/ ResyncAfterSlash \/ Finish
=============================================================================
