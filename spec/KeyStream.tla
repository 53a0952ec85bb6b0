----------------------------- MODULE KeyStream ------------------------------
(* A decryptor: an infinite key stream, defined by the key alone, of which a *)
(* prefix of at least `known` bytes is materialised.  Requests extend the    *)
(* prefix and read it; whatever the order, they see the same stream.         *)
(* The stream itself is computed here (Aes), one block per step.             *)
EXTENDS Aes, WzBytes, KeyStreams, Emit
CONSTANTS Blocks, Cases, Reqs
VARIABLES ph, stream, blk, cur, known, log, left, subj

vars == <<ph, stream, blk, cur, known, log, left, subj>>
N == 16 * Blocks
\* the key of this shard
Iv == CASE Shard % 4 = 0 -> <<77, 35, 199, 43>> [] Shard % 4 = 1 -> <<185, 125, 99, 233>>
        [] Shard % 4 = 2 -> <<0, 0, 0, 1 + (RunSeed % 250)>> [] OTHER -> RandBytes(RunSeed + 7 * Shard, 4)
Subjects == {"from_iv", "new", "global", "reader"} \cup (IF Shard % 4 = 1 THEN {"lua", "kms"} ELSE {}) \cup (IF Shard % 4 = 0 THEN {"gmsver"} ELSE {})
Init == ph = "aes" /\ stream = <<>> /\ blk = Block0(Iv) /\ cur = "main" /\ known = 0 /\ log = <<>> /\ left = Cases /\ subj = "from_iv"
Block == /\ ph = "aes" /\ Len(stream) < N
         /\ \E e \in {NextBlock(blk)} : blk' = e /\ stream' = stream \o e
         /\ UNCHANGED <<ph, cur, known, log, left, subj>>
Start == /\ \/ ph = "aes" /\ Len(stream) = N
            \/ ph = "done" /\ left > 0
         /\ ph' = "req" /\ cur' = "main" /\ known' = 0 /\ log' = <<>> /\ subj' \in R(Subjects)
         /\ UNCHANGED <<stream, blk, left>>
\* the stream in force, at position i (0-based), and its specified length
KeyAt(c, i) == CASE c = "main" -> stream[i + 1] [] c = "gms" -> GmsStream[i + 1] [] c = "zero" -> 0
Lim(c) == CASE c = "main" -> N [] c = "gms" -> Len(GmsStream) [] c = "zero" -> N
Sizes == {0, 1, 2, 15, 16, 17, 31, 32, 33, 100, 255, 256, 4079, 4080, 4081, 4095, 4096, 4097, 4111, 4112, 4113, 4200, 8191, 8192, 8193, 8208, 8300}
Req == ph = "req" /\ Len(log) < Reqs
Small(S) == {x \in S : x <= Lim(cur)}
Grow(k) == known' = IF k > known THEN k ELSE known
Add(r) == log' = Append(log, r)
Ensure == /\ Req /\ \E k \in R(Small(Sizes)) : Grow(k) /\ Add([o |-> "ensure", n |-> k])
          /\ UNCHANGED <<ph, stream, blk, cur, left, subj>>
AtReq == /\ Req /\ \E k \in R({x - 1 : x \in Small(Sizes) \ {0}} \cup R(0..(Lim(cur) - 1))) : Grow(k + 1) /\ Add([o |-> "at", n |-> k, v |-> KeyAt(cur, k)])
         /\ UNCHANGED <<ph, stream, blk, cur, left, subj>>
\* beyond the known prefix a byte may be absent, but never wrong
TryReq == /\ Req /\ \E k \in R({x - 1 : x \in Small(Sizes) \ {0}} \cup R(0..(Lim(cur) - 1))) :
                Add([o |-> "try", n |-> k, v |-> KeyAt(cur, k), must |-> (k < known /\ cur # "zero")])
          /\ UNCHANGED <<ph, stream, blk, cur, known, left, subj>>
Slice == /\ Req /\ \E k \in R(Small(Sizes)) : \E sd \in R(0..60000) : \E d \in {RandBytes(sd, k)} :
               Grow(k) /\ Add([o |-> "slice", n |-> k, d |-> d, v |-> [i \in 1..k |-> d[i] ^^ KeyAt(cur, i - 1)]])
         /\ UNCHANGED <<ph, stream, blk, cur, left, subj>>
\* the same through the string readers, which extend the key themselves
StrReq == /\ Req /\ \E k \in R(Small(Sizes)) : \E w \in R(BOOLEAN) :
               k % 2 = 0 /\ Grow(k) /\ Add([o |-> IF w THEN "wide" ELSE "narrow", n |-> k,
                 v |-> IF w THEN [j \in 1..k |-> (IF j % 2 = 1 THEN 65 + (j % 26) ELSE 3) ^^ (KeyAt(cur, j - 1) ^^
                                     (LET m == (43690 + (j - 1) \div 2) % 65536 IN IF j % 2 = 1 THEN m % 256 ELSE m \div 256))]
                       ELSE [j \in 1..k |-> (65 + (j % 26)) ^^ (KeyAt(cur, j - 1) ^^ ((170 + j - 1) % 256))]])
          /\ UNCHANGED <<ph, stream, blk, cur, left, subj>>
Enough == /\ Req /\ \E k \in R(Small(Sizes)) : Add([o |-> "enough", n |-> k, must |-> k <= known])
          /\ UNCHANGED <<ph, stream, blk, cur, known, left, subj>>
\* another key: nothing of the old stream remains
SetIv == /\ Req /\ subj \in {"from_iv", "new"} /\ RandomElement(1..2) = 1
         /\ cur' \in R({"main", "gms", "zero"}) /\ known' = 0 /\ Add([o |-> "iv", n |-> 0, iv |-> CASE cur' = "main" -> Iv [] cur' = "gms" -> <<77, 35, 199, 43>> [] OTHER -> <<0, 0, 0, 0>>])
         /\ UNCHANGED <<ph, stream, blk, left, subj>>
Finish == /\ ph = "req" /\ Len(log) = Reqs
          /\ IF left % 3 = 0
             \* concurrent clients of one shared key
             THEN EmitCase([op |-> "keysmt", subj |-> subj, iv |-> Iv, stream |-> stream,
                            threads |-> [t \in 1..4 |-> [i \in 1..6 |-> RandomElement(Sizes \ {0})]]])
             ELSE EmitCase([op |-> "keys", subj |-> subj, iv |-> Iv, log |-> log])
          /\ ph' = "done" /\ left' = left - 1
          /\ UNCHANGED <<stream, blk, cur, known, log, subj>>
Next == Block \/ Start \/ Ensure \/ AtReq \/ TryReq \/ Slice \/ StrReq \/ Enough \/ SetIv \/ Finish
\* the stream is a chain: block k+1 is the encryption of block k, whatever was asked
Chain == ph = "aes" => Len(stream) % 16 = 0
=============================================================================
