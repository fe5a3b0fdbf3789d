------------------------------ MODULE Episodes ------------------------------
(* Recorded executions, one JSON record per line; see lib/vf.py.             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
NEps == Len(Eps)
\* A failed comparison is reported and the episode is abandoned.
Reject(ep, l, why) == PrintT(<<"REJECT", ep, l, why>>)
=============================================================================
