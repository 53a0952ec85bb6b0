-------------------------------- MODULE Words --------------------------------
(* Unsigned machine words as little-endian byte sequences (TLC integers are   *)
(* 32-bit signed, so 32- and 64-bit arithmetic is done byte by byte).         *)
EXTENDS WzBytes, Functions
W(n, k) == [i \in 1..k |-> IF i <= 4 THEN LE32(n)[i] ELSE 0]      \* n >= 0
W32(n) == LE32(n)
WXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
WAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
WNot(a) == [i \in 1..Len(a) |-> 255 - a[i]]
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o AddC(a, b, i + 1, s \div 256)
WAdd(a, b) == AddC(a, b, 1, 0)
WSub(a, b) == AddC(a, WNot(b), 1, 1)
RECURSIVE Col(_, _, _, _), MulC(_, _, _, _)
Col(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + Col(a, b, k, i + 1)
MulC(a, b, k, c) == IF k > Len(a) THEN <<>> ELSE LET s == Col(a, b, k, 1) + c IN <<s % 256>> \o MulC(a, b, k + 1, s \div 256)
WMul(a, b) == MulC(a, b, 1, 0)
\* shifts and rotations by n bits
WShl(a, n) == LET q == n \div 8   r == n % 8   g(i) == IF i < 1 THEN 0 ELSE a[i]
              IN [i \in 1..Len(a) |-> ((g(i - q) * 2^r) % 256) + (g(i - q - 1) \div 2^(8 - r))]
WShr(a, n) == LET q == n \div 8   r == n % 8   g(i) == IF i > Len(a) THEN 0 ELSE a[i]
              IN [i \in 1..Len(a) |-> (g(i + q) \div 2^r) + ((g(i + q + 1) * 2^(8 - r)) % 256)]
WRotl(a, n) == LET q == n \div 8   r == n % 8   L == Len(a)   g(i) == a[((i - 1 + 2 * L) % L) + 1]
               IN [i \in 1..L |-> ((g(i - q) * 2^r) % 256) + (g(i - q - 1) \div 2^(8 - r))]
\* value of a word that is known to be small, or -1
WVal(a) == IF a[4] >= 128 \/ \E i \in 5..Len(a) : a[i] # 0 THEN -1 ELSE I32(SubSeq(a, 1, 4))
WZero(k) == [i \in 1..k |-> 0]
=============================================================================
