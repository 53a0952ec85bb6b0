----------------------------- MODULE Pkg2Trace ------------------------------
(* Keys the real generators enumerated: each must give the header's hash.     *)
EXTENDS Pkg2, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, j
Ev == Traces[i].ev[j]
Init == i = 1 /\ j = 1
Step == /\ i <= Len(Traces) /\ j <= Len(Traces[i].ev) /\ Produces(Ev.gen, Ev.h1, Ev.h2, Ev.t) /\ j' = j + 1 /\ i' = i
NextTrace == i <= Len(Traces) /\ j = Len(Traces[i].ev) + 1 /\ i' = i + 1 /\ j' = 1
Next == Step \/ NextTrace
AllDone == i = Len(Traces) + 1
NotStuck == AllDone \/ ENABLED Next \/ (PrintT(<<"STUCK", i, j>>) /\ FALSE)
=============================================================================
