------------------------------- MODULE MsPack -------------------------------
(* .ms packs of both generations: what a writer produces for a file name, a  *)
(* salt and a list of entries, and what a reader must make of any bytes.     *)
(* An entry is [n: name, key: 16 bytes, at: first block, data: the image,    *)
(* misc: 20 bytes of numbers that have no meaning here].                     *)
EXTENDS MsCipher, WzFormat
Low(u) == [i \in 1..Len(u) |-> IF u[i] \in 65..90 THEN u[i] + 32 ELSE u[i]]
SumOf(u) == FoldLeft(LAMBDA acc, x : acc + x, 0, u)
NRand(f) == (SumOf(f) % 312) + 30
Asr(b) == IF b >= 128 THEN (b \div 2) + 128 ELSE b \div 2
\* keys from the file name with the salt behind it
KeyBase == <<123,47,53,72,67,149,2,185,174,145,166,225,216,214,36,180,51,16,29,61,193,187,198,244,165,254,179,105,107,86,228,117>>
HeadKey(fs, n) == [i \in 1..n |-> (fs[((i - 1) % Len(fs)) + 1] + i - 1) % 256]
TableKey(fs, n) == [i \in 1..n |-> ((i - 1) + (((i - 1) % 3) + 2) * fs[Len(fs) - ((i - 1) % Len(fs))]) % 256]
Cha(k) == [i \in 1..32 |-> k[i] ^^ KeyBase[i]]
\* FNV-1a of the salt, and its decimal digits
FnvMul(h) == LET l == h[2] * 403 IN <<(h[1] * 403 + (l \div 65536) + (h[2] % 256) * 256) % 65536, l % 65536>>
Fnv(salt) == FoldLeft(LAMBDA acc, x : TLCEval(FnvMul(SX(acc, <<0, x>>))), <<33052, 40389>>, salt)
RECURSIVE Digits(_)
Digits(h) == LET hi == h[1] \div 10  t == (h[1] % 10) * 65536 + h[2]  q == <<hi, t \div 10>>
             IN IF q = <<0, 0>> THEN <<t % 10>> ELSE Append(Digits(q), t % 10)
\* the key of an image: n bytes from its name, its entry key and the hash of the salt
ImgKey(nm, ek, salt, n) ==
  LET d == TLCEval(Digits(Fnv(salt))) D(i) == d[(i % Len(d)) + 1]
      Ch(i) == IF nm = <<>> THEN 0 ELSE nm[(i % Len(nm)) + 1] % 256
  IN [j \in 1..n |-> LET i == j - 1 IN (i + Ch(i) * ((D(i) % 2) + ek[((D(i + 2) + i) % 16) + 1] + ((D(i + 1) + i) % 5))) % 256]
\* the nonce and first counter of an image of the second generation
SShr1(h) == <<h[1] \div 2, (h[1] % 2) * 32768 + (h[2] \div 2)>>
ImgNonce(salt) ==
  LET h == Fnv(salt) h2 == SShr1(h) h3 == SX(h2, <<0, 108>>)
      raw == SBytes(h) \o SBytes(h2) \o SBytes(h3)
  IN [j \in 1..12 |-> LET i == j - 1 IN raw[j] ^^ ((1024 - i + 11 * (i \div 11) + ((90 + 43 * i) ^^ (i \div 4)) + ((8 * i) ^^ (17 * i))) % 256)]
\* ---- key streams ----
Blocks(b) == (Len(b) + 1023) \div 1024
PadTo(b, n, sd) == b \o RandBytes(sd, n - Len(b))
Up(n, m) == ((n + m - 1) \div m) * m
\* the first generation enciphers an image once, and its first 1024 bytes twice
EncImg1(k, b) == IF b = <<>> THEN <<>> ELSE LET ks == SnowStream(k, Len(b) \div 4) IN SnowEnc(SnowEnc(SubSeq(b, 1, 1024), ks), ks) \o SnowEnc(SubSeq(b, 1025, Len(b)), SubSeq(ks, 257, Len(ks)))
DecImg1(k, b) == IF b = <<>> THEN <<>> ELSE LET ks == SnowStream(k, Len(b) \div 4) IN SnowDec(SnowDec(SubSeq(b, 1, 1024), ks), ks) \o SnowDec(SubSeq(b, 1025, Len(b)), SubSeq(ks, 257, Len(ks)))
\* the second one the first 1024 bytes only
ChaStream(k, ctr, nonce, n) == Flat([i \in 1..n |-> ChaBlock(k, SA(ctr, <<0, i - 1>>), nonce)])
EncImg2(k, nn, b) == IF b = <<>> THEN <<>> ELSE ChaXor(SubSeq(b, 1, 1024), ChaStream(k, SWord(nn, 9), Zeros(4) \o SubSeq(nn, 1, 8), 16)) \o SubSeq(b, 1025, Len(b))
\* the table of the second generation: the key stream starts again behind a field that ends with a block
RECURSIVE CtrAt(_, _)
CtrAt(k, ends) == IF k = 0 THEN 0 ELSE IF 64 * k \in ends THEN 0 ELSE CtrAt(k - 1, ends) + 1
TabStream(key, ends, n) == Flat([k \in 1..n |-> ChaBlock(key, <<0, CtrAt(k - 1, ends)>>, Zeros(12))])
\* ---- writer ----
\* p = [gen, f, salt, sd, cnt3, es]
Wide(u) == Flat([i \in 1..Len(u) |-> <<u[i] % 256, u[i] \div 256>>])
Fields(p) == LET es == p.es IN
  Flat([i \in 1..Len(es) |-> LET e == es[i] m == e.misc IN
    <<LE32(Len(e.n)), Wide(e.n), SubSeq(m, 1, 4), SubSeq(m, 5, 8), LE32(e.at), LE32(Len(e.data)), LE32(1024 * Blocks(e.data)), SubSeq(m, 9, 12), SubSeq(m, 13, 16), e.key>>
    \o (IF p.gen = 2 THEN <<SubSeq(m, 17, 20), SubSeq(m, 1, 4)>> ELSE <<>>)])
Ends(fl) == {FoldLeft(LAMBDA acc, x : acc + x, 0, [i \in 1..n |-> Len(fl[i])]) : n \in 1..Len(fl)}
Name8(p) == Low(p.f) \o p.salt
\* blocks of data in the order they are stored; between them are blocks that belong to nothing
DataArea(p, enc(_)) ==
  LET n == IF p.es = <<>> THEN 0 ELSE LET S == {p.es[i].at + Blocks(p.es[i].data) : i \in 1..Len(p.es)} IN CHOOSE x \in S : \A y \in S : y <= x
      RECURSIVE Lay1(_)
      Lay1(b) == IF b >= n THEN <<>>
                ELSE LET H == {i \in 1..Len(p.es) : p.es[i].at = b /\ p.es[i].data # <<>>} IN
                     IF H = {} THEN RandBytes(p.sd + b, 1024) \o Lay1(b + 1)
                     ELSE LET i == CHOOSE x \in H : TRUE IN enc(i) \o Lay1(b + Blocks(p.es[i].data))
  IN Lay1(0)
SaltNum(p) == RandBytes(p.sd + 5, 3)      \* the upper bytes of the salt's length
Pack1(p) ==
  LET f == Low(p.f) r == NRand(f) rnd == RandBytes(p.sd, r) fs == Name8(p) L == Len(p.salt)
      num == <<L ^^ rnd[1]>> \o SaltNum(p)
      odd == RandBytes(p.sd + 9, L)
      sb == Flat([i \in 1..L |-> <<p.salt[i] ^^ rnd[i], odd[i]>>])
      hash == FoldLeft(LAMBDA acc, i : SA(acc, <<0, sb[2 * i - 1] + 256 * sb[2 * i]>>), SA(SWord(num, 1), <<0, 2 + Len(p.es)>>), [i \in 1..L |-> i])
      hd == SnowEnc(SBytes(hash) \o <<2>> \o LE32(Len(p.es)) \o RandBytes(p.sd + 1, 3), SnowStream(HeadKey(fs, 16), 3))
      skip == ((3 * SumOf(f)) % 212) + 33 + 9 - 12
      front == rnd \o num \o sb \o hd \o RandBytes(p.sd + 2, skip)
      tab == Flat(Fields(p))
      te == SnowEnc(PadTo(tab, Up(Len(tab), 4), p.sd + 3), SnowStream(TableKey(fs, 16), Up(Len(tab), 4) \div 4))
      head == front \o te
  IN PadTo(head, Up(Len(head), 1024), p.sd + 4)
     \o DataArea(p, LAMBDA i : LET e == p.es[i] IN EncImg1(ImgKey(e.n, e.key, p.salt, 16), PadTo(e.data, 1024 * Blocks(e.data), p.sd + i)))
Pack2(p) ==
  LET f == Low(p.f) r == NRand(f) rnd == RandBytes(p.sd, r) fs == Name8(p) L == Len(p.salt)
      num == <<4 ^^ Asr(rnd[1]), L ^^ Asr(rnd[1])>> \o SaltNum(p)
      odd == RandBytes(p.sd + 9, L)
      sb == Flat([i \in 1..L |-> <<(p.salt[i] ^^ 75) ^^ Asr(rnd[i]), odd[i]>>])
      skip == ((3 * SumOf(f)) % 212) + 64
      hd == ChaXor(RandBytes(p.sd + 1, 4) \o LE32(Len(p.es)), ChaBlock(Cha(HeadKey(fs, 32)), <<0, 0>>, Zeros(12)))
      front == rnd \o num \o sb \o hd \o RandBytes(p.sd + 2, skip)
      fl == Fields(p) tab == Flat(fl) n == Up(Len(tab), 64) \div 64
      te == ChaXor(PadTo(tab, 64 * n, p.sd + 3), TabStream(Cha(TableKey(fs, 32)), Ends(fl), n))
      head == front \o te
  IN PadTo(head, Up(Len(head), 1024), p.sd + 4)
     \o DataArea(p, LAMBDA i : LET e == p.es[i] IN EncImg2(Cha(ImgKey(e.n, e.key, p.salt, 32)), ImgNonce(p.salt), PadTo(e.data, 1024 * Blocks(e.data), p.sd + i)))
\* where the table starts
TabAt(p) == LET f == Low(p.f) IN NRand(f) + 2 * Len(p.salt) + ((3 * SumOf(f)) % 212) + (IF p.gen = 1 THEN 46 ELSE 77)
PackBytes(p) == IF p.gen = 1 THEN Pack1(p) ELSE Pack2(p)
\* ---- reader, first generation: [ok, es: <<[n, data]>>] ----
NoPack == [ok |-> FALSE, es |-> <<>>]
RECURSIVE Table1(_, _, _, _)
Table1(t, q, n, acc) ==      \* t: the rest of the file deciphered; [ok, p, es]
  IF n = 0 THEN [ok |-> TRUE, p |-> q, es |-> acc]
  ELSE IF ~Has(t, q, 4) THEN [ok |-> FALSE, p |-> 0, es |-> <<>>]
  ELSE LET l == I32(Sub(t, q, 4)) z == q + 4 + 2 * l IN
       IF l < 0 \/ l > Len(t) \/ ~Has(t, z, 44) THEN [ok |-> FALSE, p |-> 0, es |-> <<>>]
       ELSE Table1(t, z + 44, n - 1, Append(acc, [n |-> [i \in 1..l |-> U16(Sub(t, q + 2 + 2 * i, 2))], at |-> I32(Sub(t, z + 8, 4)), size |-> I32(Sub(t, z + 12, 4)), len |-> I32(Sub(t, z + 16, 4)), key |-> Sub(t, z + 28, 16)]))
ReadPack1(b, name) ==
  LET f == Low(name) r == NRand(f) IN
  IF ~Has(b, r, 4) THEN NoPack ELSE
  LET L == At(b, r) ^^ At(b, 0) IN
  IF L > r \/ ~Has(b, r + 4, 2 * L + 12) THEN NoPack ELSE
  LET salt == [i \in 1..L |-> b[i] ^^ At(b, r + 2 + 2 * i)]
      fs == f \o salt
      h == r + 4 + 2 * L
      hd == SnowDec(Sub(b, h, 12), SnowStream(HeadKey(fs, 16), 3))
      n == I32(SubSeq(hd, 6, 9))
      hash == FoldLeft(LAMBDA acc, i : SA(acc, <<0, U16(Sub(b, r + 2 + 2 * i, 2))>>), SA(SA(SWord(b, r + 1), <<0, 2>>), SWord(hd, 6)), [i \in 1..L |-> i])
      e == h + 9 + ((3 * SumOf(f)) % 212) + 33
  IN IF hd[5] # 2 \/ SBytes(hash) # SubSeq(hd, 1, 4) \/ n < 0 \/ n > Len(b) THEN NoPack
     ELSE IF n = 0 THEN [ok |-> TRUE, es |-> <<>>]
     ELSE IF e > Len(b) THEN NoPack ELSE
     LET m == (Len(b) - e) \div 4
         t == SnowDec(Sub(b, e, 4 * m), SnowStream(TableKey(fs, 16), m))
         tb == Table1(t, 0, n, <<>>)
         d == Up(e + Up(tb.p, 4), 1024)
     IN IF ~tb.ok THEN NoPack
        ELSE [ok |-> TRUE, es |-> [i \in 1..n |-> LET x == tb.es[i] IN [n |-> x.n, data |-> SubSeq(DecImg1(ImgKey(x.n, x.key, salt, 16), Sub(b, d + 1024 * x.at, x.len)), 1, x.size)]]]
=============================================================================
