----------------------------- MODULE KeyTabGen ------------------------------
(* Writes KeyStreams.tla: the first bytes of the streams the other modules use,  *)
(* computed once by Aes.tla (tools/mkkeytab.sh).                             *)
EXTENDS Aes, IOUtils
VARIABLES i, blk, acc, k
Ivs == <<<<77, 35, 199, 43>>, <<185, 125, 99, 233>>, <<17, 34, 51, 68>>>>
Names == <<"GmsStream", "EmsStream", "CustomStream">>
N == atoi(IOEnv.N)
Append1(s) == Serialize(s, IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Init == i = 0 /\ k = 1 /\ acc = <<>> /\ blk = Block0(Ivs[1]) /\ Append1("------- MODULE " \o IOEnv.MOD \o " -------\n\\* generated from Aes.tla by tools/mkkeytab.sh\n")
Step == /\ k <= 3 /\ i < N
        /\ \E e \in {NextBlock(blk)} : blk' = e /\ acc' = acc \o e
        /\ i' = i + 1 /\ k' = k
Done == /\ k <= 3 /\ i = N
        /\ Append1(Names[k] \o " == " \o ToString(acc) \o "\n")
        /\ i' = 0 /\ k' = k + 1 /\ acc' = <<>> /\ blk' = IF k < 3 THEN Block0(Ivs[k + 1]) ELSE <<>>
        /\ (k = 3 => Append1("RealKeys == [gms |-> GmsStream, ems |-> EmsStream, custom |-> CustomStream]\n=======================\n"))
Next == Step \/ Done
=============================================================================
