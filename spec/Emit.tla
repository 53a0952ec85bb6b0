-------------------------------- MODULE Emit --------------------------------
(* Writing a generated case for the harness; reading the seed of the run.    *)
EXTENDS Json, IOUtils, Sequences, Integers, TLC
EmitCase(r) == Serialize(ToJson(r) \o "\n", IOEnv.OUT,
                 [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Shard == atoi(IOEnv.SHARD)
RunSeed == atoi(IOEnv.SEED)
R(S) == {RandomElement(S)}
=============================================================================
