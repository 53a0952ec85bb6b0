------------------------------ MODULE KeyTrace ------------------------------
(* Recorded executions of real threads on one shared decryptor, checked      *)
(* against the observable part of KeyConc: an extension is not interrupted,  *)
(* the prefix never shrinks, and whoever decrypts n bytes finds n bytes.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, j, known, ext
vars == <<i, j, known, ext>>
Ev == Traces[i].ev[j]
Init == i = 1 /\ j = 1 /\ known = 0 /\ ext = 0
More == i <= Len(Traces) /\ j <= Len(Traces[i].ev)
Enough == More /\ Ev.k = "enough" /\ ext = 0 /\ Ev.a = (IF known >= Ev.n THEN 1 ELSE 0) /\ UNCHANGED <<known, ext>>
Begin == More /\ Ev.k = "ext0" /\ ext = 0 /\ ext' = Ev.t /\ UNCHANGED known
End == More /\ Ev.k = "ext1" /\ ext = Ev.t /\ ext' = 0 /\ Ev.a >= known /\ Ev.a >= Ev.n /\ known' = Ev.a
Dec == More /\ Ev.k = "dec" /\ ext = 0 /\ Ev.n <= known /\ UNCHANGED <<known, ext>>
Try == More /\ Ev.k = "try" /\ ext = 0 /\ UNCHANGED <<known, ext>>
Take == (Enough \/ Begin \/ End \/ Dec \/ Try) /\ j' = j + 1 /\ i' = i
NextTrace == i <= Len(Traces) /\ j = Len(Traces[i].ev) + 1 /\ ext = 0 /\ i' = i + 1 /\ j' = 1 /\ known' = 0 /\ ext' = 0
Next == Take \/ NextTrace
\* a stuck trace is a deadlock, reported with its index
AllDone == i = Len(Traces) + 1
NotStuck == AllDone \/ ENABLED Next \/ (PrintT(<<"STUCK", i, j>>) /\ FALSE)
=============================================================================
