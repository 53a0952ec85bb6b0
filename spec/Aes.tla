-------------------------------- MODULE Aes --------------------------------
(* AES-256 (FIPS 197) over byte sequences, and the key streams derived from   *)
(* it: block 0 is the encryption of the 4-byte iv repeated, every further     *)
(* block is the encryption of the one before.                                 *)
EXTENDS Integers, Sequences, TLC, Bitwise, SequencesExt

Sbox == <<
    99,124,119,123,242,107,111,197,48,1,103,43,254,215,171,118,
    202,130,201,125,250,89,71,240,173,212,162,175,156,164,114,192,
    183,253,147,38,54,63,247,204,52,165,229,241,113,216,49,21,
    4,199,35,195,24,150,5,154,7,18,128,226,235,39,178,117,
    9,131,44,26,27,110,90,160,82,59,214,179,41,227,47,132,
    83,209,0,237,32,252,177,91,106,203,190,57,74,76,88,207,
    208,239,170,251,67,77,51,133,69,249,2,127,80,60,159,168,
    81,163,64,143,146,157,56,245,188,182,218,33,16,255,243,210,
    205,12,19,236,95,151,68,23,196,167,126,61,100,93,25,115,
    96,129,79,220,34,42,144,136,70,238,184,20,222,94,11,219,
    224,50,58,10,73,6,36,92,194,211,172,98,145,149,228,121,
    231,200,55,109,141,213,78,169,108,86,244,234,101,122,174,8,
    186,120,37,46,28,166,180,198,232,221,116,31,75,189,139,138,
    112,62,181,102,72,3,246,14,97,53,87,185,134,193,29,158,
    225,248,152,17,105,217,142,148,155,30,135,233,206,85,40,223,
    140,161,137,13,191,230,66,104,65,153,45,15,176,84,187,22 >>
Sb(b) == Sbox[b + 1]
X2 == TLCEval([b \in 0..255 |-> IF b < 128 THEN 2 * b ELSE (2 * b - 256) ^^ 27])

\* key expansion: 60 words of 4 bytes
RECURSIVE Expand(_, _, _)
Expand(w, i, rcon) ==      \* w: bytes so far (4 i of them)
  IF i = 60 THEN w
  ELSE LET p == SubSeq(w, 4 * i - 3, 4 * i)
           o == SubSeq(w, 4 * i - 31, 4 * i - 28)
           t == IF i % 8 = 0 THEN <<Sb(p[2]) ^^ rcon, Sb(p[3]), Sb(p[4]), Sb(p[1])>>
                ELSE IF i % 8 = 4 THEN <<Sb(p[1]), Sb(p[2]), Sb(p[3]), Sb(p[4])>> ELSE p
       IN Expand(w \o <<o[1] ^^ t[1], o[2] ^^ t[2], o[3] ^^ t[3], o[4] ^^ t[4]>>, i + 1,
                 IF i % 8 = 0 THEN X2[rcon] ELSE rcon)
Schedule(key) == TLCEval(Expand(key, 8, 1))

\* Position (row r, column c) is byte 4 c + r; after ShiftRows row r, column c
\* holds what was in column c + r.  One round is SubBytes, ShiftRows, MixColumns
\* and the round key; the operands are folded so that each is evaluated once.
ByteAt(r, c) == 4 * ((c + r) % 4) + r + 1
SrcTab == TLCEval([i \in 1..16 |-> LET r == (i - 1) % 4  c == (i - 1) \div 4
                     IN <<ByteAt(r, c), ByteAt((r + 1) % 4, c), ByteAt((r + 2) % 4, c), ByteAt((r + 3) % 4, c)>>])
AesRound(s, r, w) ==
  TLCEval([i \in 1..16 |->
    LET b == SrcTab[i]
        a1 == Sbox[s[b[1]] + 1]
        a2 == Sbox[s[b[2]] + 1]
    IN (((X2[a1] ^^ (X2[a2] ^^ a2)) ^^ (Sbox[s[b[3]] + 1] ^^ Sbox[s[b[4]] + 1])) ^^ w[16 * r + i])])
FinalRound(s, w) == TLCEval([i \in 1..16 |-> Sbox[s[SrcTab[i][1]] + 1] ^^ w[224 + i]])
\* "x \in {e}" evaluates e once (TLC passes operands unevaluated)
Val(S) == CHOOSE x \in S : TRUE
RECURSIVE Rounds(_, _, _)
Rounds(s, w, r) == IF r = 14 THEN FinalRound(s, w)
                   ELSE Val({Rounds(x, w, r + 1) : x \in {AesRound(s, r, w)}})
Encrypt(block, w) == Val({Rounds(x, w, 1) : x \in {TLCEval([i \in 1..16 |-> block[i] ^^ w[i]])}})

ASSUME FipsVector ==
  Encrypt([i \in 1..16 |-> 17 * (i - 1)], Schedule([i \in 1..32 |-> i - 1]))
    = <<142,162,183,202,81,103,69,191,234,252,73,144,75,73,96,137>>

\* the trimmed user key: every fourth byte is significant
UserKey == <<19,0,0,0, 8,0,0,0, 6,0,0,0, 180,0,0,0, 27,0,0,0, 15,0,0,0, 51,0,0,0, 82,0,0,0>>
UserSchedule == Schedule(UserKey)
Block0(iv) == [i \in 1..16 |-> iv[((i - 1) % 4) + 1]]
NextBlock(b) == Encrypt(b, UserSchedule)
=============================================================================
