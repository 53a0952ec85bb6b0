------------------------------ MODULE WzBytes ------------------------------
(* Byte sequences, little-endian integers and the deterministic value        *)
(* streams used by every module of the wz specification.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

Byte == 0..255
Byt(n, k) == (n \div (2^(8*k))) % 256            \* n >= 0, k <= 3

\* two's complement of a 32-bit value, byte by byte (TLC integers are 32 bit)
LE32(n) == IF n >= 0
           THEN <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
           ELSE LET m == -(n + 1)
                IN <<255 - (m % 256), 255 - ((m \div 256) % 256),
                     255 - ((m \div 65536) % 256), 255 - (m \div 16777216)>>
LE16(n) == SubSeq(LE32(n), 1, 2)
I8(n) == IF n < 0 THEN n + 256 ELSE n
S8(b) == IF b >= 128 THEN b - 256 ELSE b
\* value of 4 little-endian bytes as a signed 32-bit integer
I32(b) == IF b[4] >= 128
          THEN -(((255 - b[4]) * 16777216) + ((255 - b[3]) * 65536) + ((255 - b[2]) * 256) + (255 - b[1])) - 1
          ELSE b[4] * 16777216 + b[3] * 65536 + b[2] * 256 + b[1]
U16(b) == b[1] + 256 * b[2]
I16(b) == IF U16(b) >= 32768 THEN U16(b) - 65536 ELSE U16(b)

\* 64-bit values are 8 little-endian bytes; sign extension of a 32-bit one
LE64(n) == LE32(n) \o (IF n >= 0 THEN <<0,0,0,0>> ELSE <<255,255,255,255>>)

\* IEEE single with the value of a byte
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
F32OfByte(b) ==
  IF b = 0 THEN <<0,0,0,0>>
  ELSE LET e == Log2(b)
           m == (b - 2^e) * 2^(23 - e)
           w == (e + 127) * 8388608 + m
       IN LE32(w)

\* deterministic pseudo random byte stream, a function of the seed only
Mix(s, i) == LET x == (s * 31 + i * 7919 + (s \div 256) * i + 12345) % 65536
                 y == ((x % 4096) * 40503 + (x \div 16) * 77 + 1) % 65536
             IN (y \div 8) % 256
RandBytes(seed, n) == LET s == seed % 65536 IN TLCEval([i \in 1..n |-> Mix(s, i)])

Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* write the 4 bytes of n over positions at..at+3 (1-based)
Patch32(b, at, n) == SubSeq(b, 1, at - 1) \o LE32(n) \o SubSeq(b, at + 4, Len(b))
=============================================================================
