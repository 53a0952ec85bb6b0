---------------------------- MODULE StringCodec -----------------------------
(* Encrypted strings: a text (code points) becomes UTF-16 units; a writer    *)
(* stores it narrow or wide, with a short or long length, inline or by       *)
(* reference, under one of the keys; every reader gets the text back.        *)
EXTENDS WzFormat, KeyStreams, Emit
CONSTANT Cases
VARIABLES n, last

\* code points: boundaries of every plane and form
Pool == {0, 1, 9, 10, 31, 32, 47, 48, 65, 97, 126, 127, 128, 160, 169, 255, 256, 257, 2047, 2048, 8364, 21517, 28204, 43690,
         43691, 55295, 57344, 65533, 65535, 65536, 65537, 66051, 128512, 131071, 131072, 1114111}
Units(cp) == IF cp < 65536 THEN <<cp>>
             ELSE <<55296 + ((cp - 65536) \div 1024), 56320 + ((cp - 65536) % 1024)>>
RECURSIVE Text(_)
Text(cps) == IF cps = <<>> THEN <<>> ELSE Units(Head(cps)) \o Text(Tail(cps))
Ascii == {c \in Pool : c < 128}
LenPool == {0, 1, 2, 3, 62, 63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 340}
BigLen == {511, 512, 700, 2047, 2048, 2049, 3000}
\* a string of n units (n-1 when a pair would be cut)
Fill(k, cs) == LET s == Text([i \in 1..k |-> RandomElement(cs)]) IN TLCEval(IF Len(s) <= k THEN s ELSE
                 IF s[k] >= 55296 /\ s[k] < 56320 THEN SubSeq(s, 1, k - 1) ELSE SubSeq(s, 1, k))
Kids == {"none", "gms", "ems", "custom", "affine"}
\* dir keys: k0 k1 k1 k2 k2 k3 k3 k4 of the 64-bit key
DKey(k) == <<k[1], k[2], k[2], k[3], k[3], k[4], k[4], k[5]>>
EncDirK(dk, u) == [j \in 1..(2 * Len(u)) |->
   LET x == u[(j + 1) \div 2] IN (IF j % 2 = 1 THEN x % 256 ELSE x \div 256) ^^ dk[((j - 1) % 8) + 1]]
DecDirK(dk, r) == [i \in 1..(Len(r) \div 2) |-> U16(<<r[2*i-1] ^^ dk[((2*i-2) % 8) + 1], r[2*i] ^^ dk[((2*i-1) % 8) + 1]>>)]

Init == n = 0 /\ last = <<>>
Str == \E kid \in R(Kids) : \E big \in R(1..12) : \E len \in R(IF kid \in {"none", "affine"} /\ big = 1 THEN BigLen ELSE LenPool) :
       \E cs \in R({Ascii, Ascii, Pool, {c \in Pool : c < 65536}, {c \in Pool : c >= 65536}, {97}}) :
       \E u \in {Fill(len, cs)} : \E wide \in R(BOOLEAN) : \E long \in R(BOOLEAN) : \E pad \in R({0, 1, 3, 40}) :
       \E body \in {EncStrF(kid, u, wide, long)} : \E pre \in {RandBytes(len, pad)} : \E base \in R({0, pad}) :
       \E inl \in R({0, 115}) : \E ref \in R({1, 27}) :
         LET w == wide \/ ~IsNarrow(u)
             b == pre \o body \o <<inl>> \o body \o <<ref>> \o LE32(pad - base) \o <<7>>
             at == [str |-> pad, inl |-> pad + Len(body), ref |-> pad + 2 * Len(body) + 1]
             d == DecStr(kid, b, pad)
         IN /\ Assert(d.ok /\ d.v = u /\ d.p = pad + Len(body), "a string does not decode to itself")
            /\ Assert(DecBlock(kid, b, at.inl, base).v = u /\ DecBlock(kid, b, at.ref, base).v = u, "block")
            /\ last' = [op |-> "string", kid |-> kid, u |-> u, wide |-> w, bytes |-> b, base |-> base, at |-> at,
                        end |-> [str |-> pad + Len(body), inl |-> at.ref, ref |-> at.ref + 5],
                        \* the raw form of the value alone, in the form a writer picks and in the wide form
                        raw |-> IF IsNarrow(u) THEN EncNarrow(kid, u) ELSE EncWide(kid, u), rawwide |-> EncWide(kid, u), ascii |-> IsNarrow(u)]
Dir == \E len \in R({0, 1, 2, 3, 4, 5, 63, 64, 126, 127, 128}) : \E cs \in R({Ascii, Pool, {c \in Pool : c < 65536}}) :
       \E u \in {Fill(len, cs)} : \E t \in R({"kmst1198", "kmst1199", "kmst1202"}) : \E sd \in R(0..60000) : \E wlen \in R(BOOLEAN) :
       \E key \in {IF t = "kmst1198" THEN <<239, 190, 173, 222, 0, 0, 0, 0>> ELSE RandBytes(sd, IF t = "kmst1199" THEN 4 ELSE 8) \o (IF t = "kmst1199" THEN <<0, 0, 0, 0>> ELSE <<>>)} :
       \E k \in {DKey(key)} :
         LET raw == EncDirK(k, u)
             b == (IF wlen THEN LE16(-Len(u)) ELSE <<I8(-Len(u))>>) \o raw \o <<9>>
         IN /\ Assert(DecDirK(k, raw) = u, "a directory name does not decode to itself")
            /\ last' = [op |-> "dirname", t |-> t, key |-> key, u |-> u, wlen |-> wlen, raw |-> raw, bytes |-> b]
\* very long strings: n zero bytes (or pairs); the reader must report the length, skip exactly them, and unmask
\* unit i with the wrapped mask (sampled, where the key stream is known)
Long == \E w \in R(BOOLEAN) : \E len \in R({32767, 32768, 65535, 65536, 65537, 70000, 131073}) : \E kid \in R({"none", "affine"}) : \E pad \in R({0, 5}) :
        LET at == {0, 1, 85, 86, 127, 128, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 65537, len - 2, len - 1} \cap 0..(len - 1)
        IN last' = [op |-> "strlong", kid |-> kid, pad |-> pad, wide |-> w, len |-> len,
                    head |-> <<IF w THEN 127 ELSE 128>> \o LE32(len), end |-> pad + 5 + (IF w THEN 2 * len ELSE len),
                    at |-> [i \in at |-> IF w THEN ((43690 + i) % 65536) ^^ (K(kid, 2 * i) + 256 * K(kid, 2 * i + 1))
                                             ELSE ((170 + i) % 256) ^^ K(kid, i)]]
Next == /\ n < Cases /\ n' = n + 1 /\ (IF n % 4 = 3 THEN Dir ELSE IF n % 10 = 8 THEN Long ELSE Str) /\ EmitCase(last')
=============================================================================
