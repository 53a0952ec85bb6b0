------------------------------ MODULE MsCipher ------------------------------
(* The two stream ciphers of .ms packs: SNOW 2.0 (Ekdahl, Johansson) and     *)
(* ChaCha20 (RFC 8439).  A 32-bit word is a pair <<high half, low half>>.    *)
EXTENDS Aes
SX(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
SA(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
SNot(a) == <<65535 - a[1], 65535 - a[2]>>
SBytes(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>       \* little endian
SWord(b, i) == <<b[i + 2] + 256 * b[i + 3], b[i] + 256 * b[i + 1]>>
\* ---- SNOW 2.0 ----
\* multiplication by alpha and its inverse, alpha a root of x^4 + b^23 x^3 + b^245 x^2 + b^48 x + b^239, b a root of x^8 + x^7 + x^5 + x^3 + 1
MX(v, c) == IF v >= 128 THEN ((2 * v) % 256) ^^ c ELSE 2 * v
RECURSIVE MXPow(_, _)
MXPow(v, i) == IF i = 0 THEN v ELSE MX(MXPow(v, i - 1), 169)
AlphaT == TLCEval([c \in 0..255 |-> <<MXPow(c, 23) * 256 + MXPow(c, 245), MXPow(c, 48) * 256 + MXPow(c, 239)>>])
AlphaI == TLCEval([c \in 0..255 |-> <<MXPow(c, 16) * 256 + MXPow(c, 39), MXPow(c, 6) * 256 + MXPow(c, 64)>>])
AMul(w) == SX(<<(w[1] % 256) * 256 + (w[2] \div 256), (w[2] % 256) * 256>>, AlphaT[w[1] \div 256])
AInv(w) == SX(<<w[1] \div 256, (w[1] % 256) * 256 + (w[2] \div 256)>>, AlphaI[w[2] % 256])
\* the S-box over a word: SubBytes, then the AES MixColumn matrix
T4(k) == TLCEval([b \in 0..255 |-> LET s == Sb(b) t == X2[Sb(b)] u == X2[Sb(b)] ^^ Sb(b) IN
           CASE k = 0 -> <<u * 256 + s, s * 256 + t>> [] k = 1 -> <<s * 256 + s, t * 256 + u>> [] k = 2 -> <<s * 256 + t, u * 256 + s>> [] OTHER -> <<t * 256 + u, s * 256 + s>>])
ST0 == T4(0)   ST1 == T4(1)   ST2 == T4(2)   ST3 == T4(3)
SBox(w) == LET a == ST0[w[2] % 256] b == ST1[w[2] \div 256] c == ST2[w[1] % 256] d == ST3[w[1] \div 256]
           IN <<((a[1] ^^ b[1]) ^^ c[1]) ^^ d[1], ((a[2] ^^ b[2]) ^^ c[2]) ^^ d[2]>>
\* state: [s: 16 words, s[1] the oldest; r1, r2]
Feed(st) == SX(SX(AMul(st.s[1]), st.s[3]), AInv(st.s[12]))
Turn(st, f) == [s |-> Append(Tail(st.s), f), r1 |-> SA(st.r2, st.s[6]), r2 |-> SBox(st.r1)]
InitTurn(st) == Turn(st, SX(Feed(st), SX(SA(st.r1, st.s[16]), st.r2)))
KeyTurn(st) == Turn(st, Feed(st))
KeyWord(st) == SX(SX(SA(st.r1, st.s[16]), st.r2), st.s[1])
\* a word of the key, most significant byte first; the bytes are signed, so one over 127 sets all bits above it
KeyW(k, i) == LET h(j) == k[i + j] >= 128
                  b0 == IF h(1) \/ h(2) \/ h(3) THEN 255 ELSE k[i]
                  b1 == IF h(2) \/ h(3) THEN 255 ELSE k[i + 1]
                  b2 == IF h(3) THEN 255 ELSE k[i + 2]
              IN <<b0 * 256 + b1, b2 * 256 + k[i + 3]>>
SnowLoad(k) == LET a == KeyW(k, 1) b == KeyW(k, 5) c == KeyW(k, 9) d == KeyW(k, 13) IN
  [s |-> <<SNot(d), SNot(c), SNot(b), SNot(a), d, c, b, a, SNot(d), SNot(c), SNot(b), SNot(a), d, c, b, a>>, r1 |-> <<0, 0>>, r2 |-> <<0, 0>>]
SnowStart(k) == FoldLeft(LAMBDA acc, i : TLCEval(InitTurn(acc)), SnowLoad(k), [i \in 1..32 |-> i])
\* the first n words of the key stream
SnowStream(k, n) == FoldLeft(LAMBDA acc, i : LET st == TLCEval(KeyTurn(acc.st)) IN [st |-> st, o |-> TLCEval(Append(acc.o, KeyWord(st)))], [st |-> SnowStart(k), o |-> <<>>], [i \in 1..n |-> i]).o
\* enciphering adds words of the key stream, starting with the first; Len(b) is a multiple of 4
RECURSIVE Cat4(_, _, _)
Cat4(f(_), lo, hi) == IF lo = hi THEN f(lo) ELSE LET m == (lo + hi) \div 2 IN Cat4(f, lo, m) \o Cat4(f, m + 1, hi)
SnowEnc(b, ks) == IF b = <<>> THEN <<>> ELSE LET f(i) == SBytes(SA(SWord(b, 4 * i - 3), ks[i])) IN Cat4(f, 1, Len(b) \div 4)
SnowDec(b, ks) == IF b = <<>> THEN <<>> ELSE LET f(i) == SBytes(SA(SA(SWord(b, 4 * i - 3), SNot(ks[i])), <<0, 1>>)) IN Cat4(f, 1, Len(b) \div 4)
\* ---- ChaCha20 ----
SRot(w, n) ==      \* rotate left by n
  CASE n = 16 -> <<w[2], w[1]>>
    [] n < 16 -> LET p == 2^n q == 2^(16 - n) IN <<((w[1] * p) % 65536) + (w[2] \div q), ((w[2] * p) % 65536) + (w[1] \div q)>>
QR(x, a, b, c, d) ==
  LET a1 == SA(x[a], x[b])  d1 == SRot(SX(x[d], a1), 16)
      c1 == SA(x[c], d1)    b1 == SRot(SX(x[b], c1), 12)
      a2 == SA(a1, b1)      d2 == SRot(SX(d1, a2), 8)
      c2 == SA(c1, d2)      b2 == SRot(SX(b1, c2), 7)
  IN [x EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
QOrder == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>, <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>
ChaLoad(key, ctr, nonce) == << <<24944, 30821>>, <<13088, 25710>>, <<31074, 11570>>, <<27424, 25972>> >>
                            \o [i \in 1..8 |-> SWord(key, 4 * i - 3)] \o <<ctr>> \o [i \in 1..3 |-> SWord(nonce, 4 * i - 3)]
ChaBlock(key, ctr, nonce) ==     \* ctr: a word; 64 bytes
  LET x0 == ChaLoad(key, ctr, nonce)
      x == FoldLeft(LAMBDA acc, i : LET q == QOrder[((i - 1) % 8) + 1] IN TLCEval(QR(acc, q[1], q[2], q[3], q[4])), x0, [i \in 1..80 |-> i])
  IN FoldLeft(LAMBDA acc, i : acc \o SBytes(SA(x[i], x0[i])), <<>>, [i \in 1..16 |-> i])
ChaXor(b, ks) == [i \in 1..Len(b) |-> b[i] ^^ ks[i]]
=============================================================================
