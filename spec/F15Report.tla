------------------------------ MODULE F15Report ------------------------------
(* What the specifications print for the harness, each on a line of its own.   *)
EXTENDS TLC, Sequences
\* Case fid does not conform; bad is the set of clauses it breaks.
Reject(fid, bad) == PrintT("F " \o ToString(fid) \o " " \o ToString(bad))
\* A behaviour for the implementation.
Emission(x) == PrintT("H " \o ToString(x))
=============================================================================
