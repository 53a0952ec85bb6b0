-------------------------------- MODULE Pkg1 --------------------------------
(* First-generation archives: header, version hash, offset encryption,       *)
(* directory lists (writer), version and key detection (reader).             *)
EXTENDS WzFormat, Words

\* ---- version hash and its one-byte check value ----
RECURSIVE Digits(_), HashOf(_)
Digits(v) == IF v < 10 THEN <<48 + v>> ELSE Digits(v \div 10) \o <<48 + (v % 10)>>
\* 32 h + c in 32 bits, as a signed number
Step32(h, c) == (h % 67108864) * 32 + c - (IF (h \div 67108864) % 2 = 1 THEN 1073741824 ELSE 0) - (IF (h \div 67108864) % 2 = 1 THEN 1073741824 ELSE 0)
HashOf(d) == IF d = <<>> THEN 0 ELSE Step32(HashOf(SubSeq(d, 1, Len(d) - 1)), d[Len(d)] + 1)
VerHash(v) == HashOf(Digits(v))
EncVerOf(h) == LET b == LE32(h) IN ((((255 ^^ b[1]) ^^ b[2]) ^^ b[3]) ^^ b[4])
EncVer(v) == EncVerOf(VerHash(v))
CONSTANT EncTab          \* EncTab[v] = EncVer(v) for v in 1..2000 (EncTab <- MkEncTab)
MkEncTab == [v \in 1..2000 |-> EncVer(v)]

\* ---- offsets: position of the field, start of the content, version hash ----
WzConst == <<109, 63, 28, 88>>                      \* 0x581C3F6D
Mask1(pos, fstart, h) ==
  LET a == WNot(W32(pos - fstart))
      x == WSub(WMul(a, W32(h)), WzConst)
  IN WRotl(x, x[1] % 32)
EncOff(off, pos, fstart, h) == WXor(WSub(W32(off), W32(2 * fstart)), Mask1(pos, fstart, h))
DecOff(enc, pos, fstart, h) == WAdd(WXor(enc, Mask1(pos, fstart, h)), W32(2 * fstart))

\* ---- the archive: dirs[1] is the root; an entry is [n, t, at, ck, lg, rf] ----
\*  t: "dir" (at: index into dirs), "img" (at: index into imgs), "junk"
\*  rf: name stored elsewhere; lg: long integer forms; ck: checksum
\* imgs[i] = [b: bytes of the image]
EntryLen(kid, e, size) ==
  IF e.t = "junk" THEN 11
  ELSE (IF e.rf THEN 5 ELSE 1 + Len(EncStrF(kid, e.n, e.wide, FALSE))) + Len(EncInt(size, e.lg)) + Len(EncInt(e.ck, FALSE)) + 4
\* length of every list, last to first (children come after their parents)
RECURSIVE ListLens(_, _, _, _), SumLen(_, _, _, _, _)
SumLen(kid, es, i, imgs, lens) ==   \* lens: function for larger indexes
  IF i > Len(es) THEN 0
  ELSE EntryLen(kid, es[i], IF es[i].t = "dir" THEN lens[es[i].at] ELSE IF es[i].t = "img" THEN Len(imgs[es[i].at].b) ELSE 0)
       + SumLen(kid, es, i + 1, imgs, lens)
ListLens(kid, dirs, imgs, d) ==     \* sequence for d..Len(dirs), as a function
  IF d > Len(dirs) THEN <<>>
  ELSE LET rest == ListLens(kid, dirs, imgs, d + 1)
           lens == [j \in (d + 1)..Len(dirs) |-> rest[j - d]]
       IN <<Len(EncInt(Len(dirs[d]), FALSE)) + SumLen(kid, dirs[d], 1, imgs, lens)>> \o rest
RECURSIVE Starts(_, _)
Starts(lens, p) == IF lens = <<>> THEN <<>> ELSE <<p>> \o Starts(Tail(lens), p + Head(lens))
\* names stored elsewhere: one (type byte, string) per referring entry
RefItems(kid, dirs) ==
  Flat([d \in 1..Len(dirs) |-> SelectSeq([i \in 1..Len(dirs[d]) |-> [d |-> d, i |-> i, e |-> dirs[d][i]]], LAMBDA x : x.e.t # "junk" /\ x.e.rf)])
RefBytes(kid, x) == <<IF x.e.t = "dir" THEN 3 ELSE 4>> \o EncStrF(kid, x.e.n, x.e.wide, FALSE)
\* everything placed: start of each list, image, and stored name
Layout(a) ==
  LET dirs == a.dirs  imgs == a.imgs  kid == a.kid
      ds == a.fstart + (IF a.enc THEN 2 ELSE 0)
      lens == ListLens(kid, dirs, imgs, 1)
      dpos == Starts(lens, ds)
      refs == RefItems(kid, dirs)
      rb == [i \in 1..Len(refs) |-> RefBytes(kid, refs[i])]
      p1 == ds + (IF lens = <<>> THEN 0 ELSE dpos[Len(dirs)] + lens[Len(dirs)] - ds)
      rpos == Starts([i \in 1..Len(rb) |-> Len(rb[i])], p1)
      p2 == p1 + Len(Flat(rb))
      n == Len(imgs)
      ord == IF a.rev THEN [i \in 1..n |-> n + 1 - i] ELSE [i \in 1..n |-> i]
      ip == Starts([i \in 1..n |-> Len(imgs[ord[i]].b)], p2)
      ipos == [i \in 1..n |-> ip[IF a.rev THEN n + 1 - i ELSE i]]
  IN [ds |-> ds, lens |-> lens, dpos |-> dpos, refs |-> refs, rb |-> rb, rpos |-> rpos, ipos |-> ipos, ord |-> ord]
PutEntry(a, L, d, i, p) ==
  LET e == a.dirs[d][i] IN
  IF e.t = "junk" THEN <<1>> \o RandBytes(e.ck + 3, 10)
  ELSE LET size == IF e.t = "dir" THEN L.lens[e.at] ELSE Len(a.imgs[e.at].b)
           off == IF e.t = "dir" THEN L.dpos[e.at] ELSE L.ipos[e.at]
           r == CHOOSE j \in 1..Len(L.refs) : ~e.rf \/ (L.refs[j].d = d /\ L.refs[j].i = i)
           h == (IF e.rf THEN <<2>> \o LE32(L.rpos[r] - a.fstart)
                 ELSE <<IF e.t = "dir" THEN 3 ELSE 4>> \o EncStrF(a.kid, e.n, e.wide, FALSE))
                \o EncInt(size, e.lg) \o EncInt(e.ck, FALSE)
       IN h \o EncOff(off, p + Len(h), a.fstart, a.hash)
RECURSIVE PutEntries1(_, _, _, _, _)
PutEntries1(a, L, d, i, p) ==
  IF i > Len(a.dirs[d]) THEN <<>>
  ELSE LET b == PutEntry(a, L, d, i, p) IN b \o PutEntries1(a, L, d, i + 1, p + Len(b))
PutDir(a, L, d) == LET c == EncInt(Len(a.dirs[d]), FALSE) IN c \o PutEntries1(a, L, d, 1, L.dpos[d] + Len(c))
Header(ident, fsize, fstart) == ident \o LE32(fsize) \o <<0, 0, 0, 0>> \o LE32(fstart) \o RandBytes(fstart, fstart - 16)
PKG1 == <<80, 75, 71, 49>>
Archive(a, L) ==
  LET body == Flat([d \in 1..Len(a.dirs) |-> PutDir(a, L, d)]) \o Flat(L.rb)
              \o Flat([i \in 1..Len(a.imgs) |-> a.imgs[L.ord[i]].b])
      enc == IF a.enc THEN LE16(EncVerOf(a.hash)) ELSE <<>>
  IN Header(PKG1, Len(enc) + Len(body), a.fstart) \o enc \o body

\* ---- what a reader must show: dirs and images with their offsets and sizes ----
RECURSIVE TreeOf(_, _, _)
TreeOf(a, L, d) ==
  LET es == SelectSeq(a.dirs[d], LAMBDA e : e.t # "junk")
  IN [i \in 1..Len(es) |->
        IF es[i].t = "dir" THEN [n |-> es[i].n, k |-> "dir", off |-> L.dpos[es[i].at], size |-> L.lens[es[i].at], c |-> TreeOf(a, L, es[i].at)]
        ELSE [n |-> es[i].n, k |-> "image", off |-> L.ipos[es[i].at], size |-> Len(a.imgs[es[i].at].b), c |-> a.imgs[es[i].at].tree]]

\* ---- the reader: header, key, version ----
\* the value of the two bytes after the header is a version check value unless it cannot be one
HasEncVer(b, fstart) ==
  /\ Has(b, fstart, 2) /\ (b[8] # 0 \/ b[7] # 0 \/ b[6] # 0 \/ b[5] >= 2)
  /\ LET v == U16(Sub(b, fstart, 2))
     IN /\ v < 256
        /\ ~(v = 128 /\ Has(b, fstart + 1, 4) /\ LET n == I32(Sub(b, fstart + 1, 4)) IN n > 0 /\ n % 256 = 0 /\ n <= 65535)
RECURSIVE RdEntries(_, _, _, _, _)
RdBad == [ok |-> FALSE, es |-> <<>>]
RdEntries(b, p, fstart, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, es |-> acc]
  ELSE IF ~Has(b, p, 1) THEN RdBad
  ELSE LET t == At(b, p) IN
    IF t = 1 THEN RdEntries(b, p + 11, fstart, n - 1, acc)
    ELSE IF t \notin {2, 3, 4} \/ (t = 2 /\ ~Has(b, p + 1, 4)) THEN RdBad
    ELSE LET r == I32(Sub(b, p + 1, 4))
             o == IF t # 2 THEN p ELSE IF r < 0 \/ r > Len(b) THEN -1 ELSE fstart + r
         IN IF ~Has(b, o, 1) \/ At(b, o) \notin {3, 4} THEN RdBad
         ELSE LET s == DecStr("none", b, o + 1)
                  q == IF t = 2 THEN p + 5 ELSE s.p
                  sz == DecInt(b, q)
                  ck == DecInt(b, sz.p)
              IN IF ~(s.ok /\ sz.ok /\ ck.ok /\ Has(b, ck.p, 4)) THEN RdBad
                 ELSE RdEntries(b, ck.p + 4, fstart, n - 1,
                        Append(acc, [t |-> At(b, o), at |-> s.at, len |-> s.len, wide |-> s.wide, size |-> sz.v, pos |-> ck.p, enc |-> Sub(b, ck.p, 4)]))
Entries(b, p, fstart) == LET n == DecInt(b, p) IN IF ~n.ok \/ n.v < 0 \/ n.v > 1000000 THEN RdBad ELSE RdEntries(b, n.p, fstart, n.v, <<>>)
\* where the content starts, or -1: no archive of this kind
FStart(b) == IF Len(b) < 16 \/ SubSeq(b, 1, 4) # PKG1 THEN -1
             ELSE LET f == I32(Sub(b, 12, 4)) IN IF f < 0 \/ f > Len(b) THEN -1 ELSE f
ReadArchive(b) == LET f == FStart(b) IN IF f = -1 THEN RdBad ELSE Entries(b, f + (IF HasEncVer(b, f) THEN 2 ELSE 0), f)
\* entries of the list at p: [ok, es: <<[t, at: raw name position, len, wide, size, pos, enc]>>]
ImgHeader == {115, 1, 35}
\* does hash h place every entry of the list inside the file, with an image header or a count where one belongs
Verifies(b, es, fstart, h) ==
  \A i \in 1..Len(es) : LET e == es[i]  o == WVal(DecOff(e.enc, e.pos, fstart, h)) IN
     /\ e.size >= 0 /\ o >= 0 /\ o <= Len(b) /\ e.size <= Len(b) - o
     /\ o < Len(b)
     /\ (e.t = 4 => At(b, o) \in ImgHeader)
     /\ (e.t = 3 => LET c == DecInt(b, o) IN c.ok /\ c.v >= 0)
\* versions tried without a hint, in order
Candidates(b, fstart) ==
  IF HasEncVer(b, fstart) THEN LET e == At(b, fstart) IN {v \in 1..2000 : EncTab[v] = e \/ v = e} ELSE 770..780
Accepts(b, fstart, es, v) == VerHash(v) # 0 /\ Verifies(b, es, fstart, VerHash(v))
Detect(b, fstart, es) ==
  LET ok == {v \in Candidates(b, fstart) : Accepts(b, fstart, es, v)}
  IN IF ok = {} THEN -1 ELSE CHOOSE v \in ok : \A w \in ok : v <= w
\* an explicit version must have the stored check value (any, when none is stored)
Explicit(b, fstart, es, v) ==
  /\ HasEncVer(b, fstart) => EncVer(v) = At(b, fstart) \/ v = At(b, fstart)
  /\ Accepts(b, fstart, es, v)

\* ---- string keys: the first name decides ----
RawName(b, e) == Sub(b, e.at, e.len)
NameUnder(b, e, kid) == IF e.wide THEN DecWide(kid, RawName(b, e)) ELSE DecNarrow(kid, RawName(b, e))
AsciiUnder(b, e, kid) == \A i \in 1..Len(NameUnder(b, e, kid)) : NameUnder(b, e, kid)[i] < 128
\* strict UTF-8 / UTF-16
RECURSIVE Utf8(_, _)
Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
Utf8(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET c == s[i] IN
    IF c < 128 THEN Utf8(s, i + 1)
    ELSE IF c \in 194..223 THEN Cont(s, i + 1) /\ Utf8(s, i + 2)
    ELSE IF c \in 224..239 THEN /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ (c = 224 => s[i+1] >= 160) /\ (c = 237 => s[i+1] < 160) /\ Utf8(s, i + 3)
    ELSE IF c \in 240..244 THEN /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3) /\ (c = 240 => s[i+1] >= 144) /\ (c = 244 => s[i+1] < 144) /\ Utf8(s, i + 4)
    ELSE FALSE
TextUnder(b, e, kid) == LET u == NameUnder(b, e, kid) IN IF e.wide THEN Utf16(u, 1) ELSE Utf8(u, 1)
\* the key a reader ends up with: hint is a key or "" ; "" when it must refuse
KeyOrder == <<"none", "gms", "ems">>
KeyFor(b, es, hint) ==
  IF es = <<>> \/ es[1].len = 0 THEN (IF hint = "" THEN "none" ELSE hint)
  ELSE LET e == es[1]
           g == {i \in 1..3 : AsciiUnder(b, e, KeyOrder[i])}
           fall == IF hint = "" THEN "none" ELSE hint
       IN IF hint # "" /\ AsciiUnder(b, e, hint) THEN hint
          ELSE IF g # {} THEN KeyOrder[CHOOSE i \in g : \A j \in g : i <= j]
          ELSE IF TextUnder(b, e, fall) THEN fall ELSE ""
=============================================================================
