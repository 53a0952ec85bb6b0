------------------------------- MODULE Pixels -------------------------------
(* What the stored bytes of a canvas mean: the colour of every pixel, for    *)
(* every pixel format, and the zlib form of the bytes.                       *)
EXTENDS WzBytes, SequencesExt

U16at(d, i) == d[i] + 256 * d[i + 1]               \* 1-based
X4(n) == n * 17
X5(n) == n * 8 + n \div 4
X6(n) == n * 4 + n \div 16
Rgb565(c) == <<X5(c \div 2048), X6((c \div 32) % 64), X5(c % 32)>>
Rgb1555(c) == <<X5((c \div 1024) % 32), X5((c \div 32) % 32), X5(c % 32), IF c >= 32768 THEN 255 ELSE 0>>
CeilDiv(a, b) == (a + b - 1) \div b

\* ---- 4x4 blocks: 16 bytes to 16 pixels, row by row ----
Mix3(p, q, a, b) == [i \in 1..3 |-> (a * p[i] + b * q[i] + 1) \div 3]
Palette(c0, c1) ==
  LET p == Rgb565(c0)  q == Rgb565(c1)
  IN IF c0 > c1 THEN <<p, q, Mix3(p, q, 2, 1), Mix3(p, q, 1, 2)>>
     ELSE <<p, q, [i \in 1..3 |-> (p[i] + q[i]) \div 2], <<0, 0, 0>>>>
ColorOf(b, pal, i) == pal[((b[13 + i \div 4] \div (4^(i % 4))) % 4) + 1]      \* i: 0..15
Alpha3(b, i) == X4((b[1 + i \div 2] \div (IF i % 2 = 0 THEN 1 ELSE 16)) % 16)
Alphas5(a0, a1) ==
  IF a0 > a1 THEN <<a0, a1>> \o [i \in 1..6 |-> ((7 - i) * a0 + i * a1 + 3) \div 7]
  ELSE <<a0, a1>> \o [i \in 1..4 |-> ((5 - i) * a0 + i * a1 + 2) \div 5] \o <<0, 255>>
Three(b, at) == b[at] + 256 * b[at + 1] + 65536 * b[at + 2]
Alpha5(b, tab, i) == tab[((Three(b, 3 + 3 * (i \div 8)) \div (8^(i % 8))) % 8) + 1]
Dxt3(b) == LET pal == Palette(U16at(b, 9), U16at(b, 11)) IN [i \in 1..16 |-> Append(ColorOf(b, pal, i - 1), Alpha3(b, i - 1))]
Dxt5(b) == LET pal == Palette(U16at(b, 9), U16at(b, 11))  tab == Alphas5(b[1], b[2])
           IN [i \in 1..16 |-> Append(ColorOf(b, pal, i - 1), Alpha5(b, tab, i - 1))]
\* BC7, the modes without partitions (4, 5, 6); bits are numbered from the first byte's low bit
Bit(b, i) == (b[1 + i \div 8] \div (2^(i % 8))) % 2
RECURSIVE Bits(_, _, _)
Bits(b, at, n) == IF n = 0 THEN 0 ELSE Bit(b, at) + 2 * Bits(b, at + 1, n - 1)
W2 == <<0, 21, 43, 64>>
W3 == <<0, 9, 18, 27, 37, 46, 55, 64>>
W4 == <<0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64>>
Lerp(a, b, w) == ((64 - w) * a + w * b + 32) \div 64
\* the index of pixel i in a list of n-bit indices starting at bit `at` (the first one is a bit short)
Ix(b, at, n, i) == IF i = 0 THEN Bits(b, at, n - 1) ELSE Bits(b, at + n * i - 1, n)
Turn(px, r) == CASE r = 0 -> px [] r = 1 -> <<px[4], px[2], px[3], px[1]>> [] r = 2 -> <<px[1], px[4], px[3], px[2]>> [] OTHER -> <<px[1], px[2], px[4], px[3]>>
Bc7Mode(b) == CHOOSE m \in 0..7 : Bit(b, m) = 1 /\ \A k \in 0..(m - 1) : Bit(b, k) = 0
X7(n) == n * 2 + n \div 64
Bc7(b) ==
  LET m == Bc7Mode(b) IN
  CASE m = 6 -> LET e(c, k) == 2 * Bits(b, 7 + 14 * c + 7 * k, 7) + Bit(b, 63 + k)
                IN [i \in 1..16 |-> [c \in 1..4 |-> Lerp(e(c - 1, 0), e(c - 1, 1), W4[Ix(b, 65, 4, i - 1) + 1])]]
    [] m = 5 -> LET e(c, k) == X7(Bits(b, 8 + 14 * c + 7 * k, 7))
                    a(k) == Bits(b, 50 + 8 * k, 8)
                IN [i \in 1..16 |-> Turn([c \in 1..3 |-> Lerp(e(c - 1, 0), e(c - 1, 1), W2[Ix(b, 66, 2, i - 1) + 1])]
                                         \o <<Lerp(a(0), a(1), W2[Ix(b, 97, 2, i - 1) + 1])>>, Bits(b, 6, 2))]
    [] m = 4 -> LET e(c, k) == X5(Bits(b, 8 + 10 * c + 5 * k, 5))
                    a(k) == X6(Bits(b, 38 + 6 * k, 6))
                    i2(i) == W2[Ix(b, 50, 2, i) + 1]
                    i3(i) == W3[Ix(b, 81, 3, i) + 1]
                    ci(i) == IF Bit(b, 7) = 0 THEN i2(i) ELSE i3(i)
                    ai(i) == IF Bit(b, 7) = 0 THEN i3(i) ELSE i2(i)
                IN [i \in 1..16 |-> Turn([c \in 1..3 |-> Lerp(e(c - 1, 0), e(c - 1, 1), ci(i - 1))] \o <<Lerp(a(0), a(1), ai(i - 1))>>, Bits(b, 5, 2))]

\* ---- formats ----
Formats == {1, 2, 3, 257, 513, 517, 769, 1026, 2050, 2562, 4098}
Blocky == {3, 1026, 2050, 4098}
Need(f, w, h) ==
  CASE f \in {1, 257, 513, 769} -> 2 * w * h
    [] f \in {2, 2562} -> 4 * w * h
    [] f = 517 -> 2 * (w \div 16) * (h \div 16)
    [] OTHER -> 16 * CeilDiv(w, 4) * CeilDiv(h, 4)
\* sequences of <<r, g, b, a>> row by row; depth 16 for format 769
Image(f, d, w, h) ==
  LET bs == IF f \in Blocky
            THEN TLCEval([k \in 1..(CeilDiv(w, 4) * CeilDiv(h, 4)) |->
                    LET b == SubSeq(d, 16 * k - 15, 16 * k) IN IF f = 2050 THEN Dxt5(b) ELSE IF f = 4098 THEN Bc7(b) ELSE Dxt3(b)])
            ELSE <<>>
      Px(i) ==    \* 0-based
        LET x == i % w  y == i \div w IN
        CASE f = 1 -> LET p == d[2 * i + 1]  q == d[2 * i + 2] IN <<X4(q % 16), X4(p \div 16), X4(p % 16), X4(q \div 16)>>
          [] f = 2 -> <<d[4 * i + 3], d[4 * i + 2], d[4 * i + 1], d[4 * i + 4]>>
          [] f = 257 -> Rgb1555(U16at(d, 2 * i + 1))
          [] f = 513 -> Append(Rgb565(U16at(d, 2 * i + 1)), 255)
          [] f = 517 -> Append(Rgb565(U16at(d, 2 * ((y \div 16) * (w \div 16) + x \div 16) + 1)), 255)
          [] f = 769 -> <<U16at(d, 2 * i + 1), 0, 0, 65535>>
          [] f = 2562 -> LET a == d[4 * i + 1]  b == d[4 * i + 2]  c == d[4 * i + 3]  e == d[4 * i + 4]
                         IN <<(a \div 4) + 64 * (b % 4), (b \div 16) + 16 * (c % 16), (c \div 64) + 4 * (e % 64), 85 * (e \div 64)>>
          [] OTHER -> bs[(y \div 4) * CeilDiv(w, 4) + x \div 4 + 1][4 * (y % 4) + (x % 4) + 1]
  IN [i \in 1..(w * h) |-> Px(i - 1)]

\* ---- zlib: stored blocks, or fixed codes with short matches ----
Adler(d) == LET s == FoldLeft(LAMBDA acc, x : LET a == (acc[1] + x) % 65521 IN <<a, (acc[2] + a) % 65521>>, <<1, 0>>, d)
            IN <<s[2] \div 256, s[2] % 256, s[1] \div 256, s[1] % 256>>
RECURSIVE Stored(_, _)
Stored(d, n) ==       \* blocks of at most n bytes
  LET k == IF Len(d) < n THEN Len(d) ELSE n
      last == k = Len(d)
  IN <<IF last THEN 1 ELSE 0>> \o LE16(k) \o [i \in 1..2 |-> 255 - LE16(k)[i]] \o SubSeq(d, 1, k)
     \o (IF last THEN <<>> ELSE Stored(SubSeq(d, k + 1, Len(d)), n))
\* bits, first one first
Msb(v, n) == [i \in 1..n |-> (v \div (2^(n - i))) % 2]
Lit(v) == IF v < 144 THEN Msb(48 + v, 8) ELSE Msb(400 + v - 144, 9)
\* a match of length 3..10 at distance 1..4
Match(len, dist) == Msb(len - 2, 7) \o Msb(dist - 1, 5)
RECURSIVE Run(_, _, _, _)
Run(d, i, dist, n) == IF n < 10 /\ i + n <= Len(d) /\ i > dist /\ d[i + n] = d[i + n - dist] THEN Run(d, i, dist, n + 1) ELSE n
RECURSIVE Fixed(_, _, _)
Fixed(d, i, dist) ==
  IF i > Len(d) THEN Msb(0, 7)
  ELSE LET n == Run(d, i, dist, 0)
       IN IF n >= 3 THEN Match(n, dist) \o Fixed(d, i + n, dist) ELSE Lit(d[i]) \o Fixed(d, i + 1, dist)
Pack8(bits) == [k \in 1..CeilDiv(Len(bits), 8) |->
                  LET B(j) == IF 8 * (k - 1) + j + 1 <= Len(bits) THEN bits[8 * (k - 1) + j + 1] * 2^j ELSE 0
                  IN B(0) + B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7)]
Deflate(d, how) == IF how.fixed THEN Pack8(TLCEval(<<1, 1, 0>> \o Fixed(d, 1, how.dist))) ELSE Stored(d, how.n)
Zlib(d, how) == <<120, how.flg>> \o Deflate(d, how) \o Adler(d)
=============================================================================
