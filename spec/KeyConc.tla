------------------------------ MODULE KeyConc -------------------------------
(* Clients of one shared decryptor behind a reader/writer lock: lock for     *)
(* writing, extend the materialised prefix if it is too short (byte batches, *)
(* one per step), unlock; lock for reading, decrypt, unlock.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Need, Batch
VARIABLES pc, writer, readers, known, bad
vars == <<pc, writer, readers, known, bad>>
Init == pc = [t \in Threads |-> "start"] /\ writer = 0 /\ readers = {} /\ known = 0 /\ bad = FALSE
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
LockW(t) == pc[t] = "start" /\ writer = 0 /\ readers = {} /\ writer' = t /\ Go(t, "check") /\ UNCHANGED <<readers, known, bad>>
Check(t) == pc[t] = "check" /\ Go(t, IF known >= Need[t] THEN "unlockw" ELSE "extend") /\ UNCHANGED <<writer, readers, known, bad>>
Extend(t) == /\ pc[t] = "extend" /\ known' = known + Batch /\ bad' = (bad \/ writer # t)
             /\ Go(t, IF known' >= Need[t] THEN "unlockw" ELSE "extend") /\ UNCHANGED <<writer, readers>>
UnlockW(t) == pc[t] = "unlockw" /\ writer' = 0 /\ Go(t, "lockr") /\ UNCHANGED <<readers, known, bad>>
LockR(t) == pc[t] = "lockr" /\ writer = 0 /\ readers' = readers \cup {t} /\ Go(t, "decrypt") /\ UNCHANGED <<writer, known, bad>>
\* decrypting needs the whole prefix, and nobody may be extending it
Decrypt(t) == pc[t] = "decrypt" /\ bad' = (bad \/ known < Need[t] \/ writer # 0) /\ Go(t, "unlockr") /\ UNCHANGED <<writer, readers, known>>
UnlockR(t) == pc[t] = "unlockr" /\ readers' = readers \ {t} /\ Go(t, "end") /\ UNCHANGED <<writer, known, bad>>
Step(t) == LockW(t) \/ Check(t) \/ Extend(t) \/ UnlockW(t) \/ LockR(t) \/ Decrypt(t) \/ UnlockR(t)
Done == \A t \in Threads : pc[t] = "end"
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
Safe == ~bad /\ (writer # 0 => readers = {}) /\ Cardinality({t \in Threads : pc[t] \in {"check", "extend", "unlockw"}}) <= 1
Live == <>Done
\* the prefix never shrinks
Mono == [][known' >= known]_vars
NeedT == <<2, 3, 1, 4>>
=============================================================================
