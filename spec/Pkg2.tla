-------------------------------- MODULE Pkg2 --------------------------------
(* Second-generation archives: headers, version keys and the stored hashes   *)
(* they give, name keys, offset masks, encrypted entry counts, list forms    *)
(* (writer), and the spec's own reader of a list.                            *)
EXTENDS Pkg1

H4(hi, lo) == LE16(lo) \o LE16(hi)
VKey  == H4(\h1A2B, \h3C4D)
VKey4 == H4(\h6D4C, \h3B2A)
VKey5 == H4(\h2A2C, \h818B)
VKey6 == H4(\h2345, \h6789) \o H4(\hABCD, \hEF01)
MixC  == H4(\h91E1, \h0DA5)

\* ---- profiles ----
Profs == {"Pkg2V1196", "Pkg2V1197", "Pkg2V1198", "Pkg2V1199", "Pkg2V1200", "Pkg2V1201", "Pkg2V1202"}
GenOf(p) == CASE p = "Pkg2V1196" -> 1 [] p = "Pkg2V1197" -> 2 [] p = "Pkg2V1198" -> 3 [] p = "Pkg2V1200" -> 5 [] p = "Pkg2V1202" -> 6 [] OTHER -> 4
OffOf(p) == CASE p = "Pkg2V1196" -> 1 [] p \in {"Pkg2V1197", "Pkg2V1198"} -> 2 [] p = "Pkg2V1202" -> 4 [] OTHER -> 3
Plain(p) == p \in {"Pkg2V1196", "Pkg2V1197"}      \* names in the ordinary form, under a regional key
Is64(p) == p = "Pkg2V1202"

\* ---- the second stored hash, from the first and the version key ----
MixK(k0) == LET k1 == WXor(k0, WShr(k0, 16))
                k2 == WMul(k1, H4(\h7FEB, \h352D))
                k3 == WXor(k2, WShr(k2, 15))
                k4 == WMul(k3, H4(\h846C, \hA68B))
            IN WXor(k4, WShr(k4, 16))
Lt4(h1, t) ==
  LET m == WXor(MixK(WXor(WXor(h1, t), VKey4)), MixC)
      base == WXor(h1, WAdd(WAdd(<<m[1], m[2], 0, 0>>, t), VKey))
      rot == ((m[1] ^^ t[1]) % 16) + (h1[1] % 16)
  IN WXor(WRotl(base, rot), WAdd(WXor(h1, t), m))
Hash2(g, h1, t) ==
  CASE g = 1 -> WXor(WRotl(h1, 7), t)
    [] g = 2 -> WXor(WRotl(WXor(h1, WAdd(t, VKey)), t[1] % 32), t)
    [] g = 3 -> WNot(WXor(WXor(WRotl(WXor(h1, WAdd(t, VKey)), (t[1] % 16) + (h1[1] % 16)), t), h1))
    [] g = 4 -> WNot(Lt4(h1, t))
    [] g = 5 -> WXor(Lt4(h1, t), VKey5)
    [] g = 6 -> WXor(WXor(h1, t), VKey6)
Produces(g, h1, h2, t) == Hash2(g, h1, t) = h2

\* ---- the key of the first name of a list ----
NameKey(p, h1, t) ==
  CASE p = "Pkg2V1198" -> H4(\hDEAD, \hBEEF)
    [] p = "Pkg2V1202" -> WXor(WXor(h1, t), H4(\h317F, \hD3DF) \o H4(\h66B5, \h7FEE))
    [] OTHER -> MixK(WXor(MixK(WXor(WXor(h1, t), VKey4)), H4(\h4F4C, \hB34A)))
DirStream(k) == LET z(i) == IF i > Len(k) THEN 0 ELSE k[i] IN <<z(1), z(2), z(2), z(3), z(3), z(4), z(4), z(5)>>
EncDirName(k, u) == LET s == DirStream(k) IN
  [j \in 1..(2 * Len(u)) |-> LET x == u[(j + 1) \div 2] IN (IF j % 2 = 1 THEN x % 256 ELSE x \div 256) ^^ s[((j - 1) % 8) + 1]]
DecDirName(k, r) == LET s == DirStream(k) IN
  [i \in 1..(Len(r) \div 2) |-> U16(<<r[2*i-1] ^^ s[((2*i-2) % 8) + 1], r[2*i] ^^ s[((2*i-1) % 8) + 1]>>)]

\* ---- offsets: position of the field, start of the content, first hash, version key (low words) ----
Ones(h1) == WMul(h1, <<1, 1, 1, 1>>)
Inv(pos, fs) == WNot(W32(pos - fs))
X2(p, pos, fs, h1, t) ==
  LET o == OffOf(p)
      pre == WXor(h1, t)
      mx == IF o = 3 THEN WXor(MixK(WXor(pre, VKey4)), MixC) ELSE WXor(pre, H4(\h33BB, \hBB33))
      mul == CASE o = 1 -> t [] o = 2 -> pre [] OTHER -> WAdd(pre, WXor(mx, H4(\hA7E3, \hC093)))
      a0 == WSub(WMul(Inv(pos, fs), mul), WzConst)
      a1 == WXor(a0, Ones(h1))
      a2 == IF o < 3 THEN a1 ELSE WXor(a1, WMul(mx, H4(\h9E37, \h79B9)))
      rot == CASE o \in {1, 2} -> pre[1] % 32 [] o = 3 -> (pre[1] ^^ mx[1]) % 32 [] OTHER -> 19
      m == WRotl(a2, rot)
  IN IF o = 1 THEN m ELSE WNot(m)
EncOff2(p, off, pos, fs, h1, t) == WXor(W32(off - fs), X2(p, pos, fs, h1, t))
DecOff2(p, enc, pos, fs, h1, t) == WAdd(WXor(enc, X2(p, pos, fs, h1, t)), W32(fs))
\* ---- entry counts: opaque, except in the 64-bit form ----
Count64(h1, t, n, low) == WXor(WXor(WXor(LE16(low) \o LE32(n) \o <<0, 0>>, h1), t), H4(\h02C4, \h68EC) \o H4(\h550E, \hC4DD))

\* ---- the archive: [prof, form, fstart, h1, h2, t, kid, rev, dirs, imgs, cnts, sd] ----
\*  cnts[d]: [v: opaque count, or the low 16 bits; lg]
L4(w) == SubSeq(w, 1, 4)
Low(a) == [h1 |-> L4(a.h1), t |-> L4(a.t)]
CntBytes(a, d) == IF Is64(a.prof) THEN EncI64(Count64(a.h1, a.t, Len(a.dirs[d]), a.cnts[d].v % 65536), FALSE)
                  ELSE EncInt(a.cnts[d].v, a.cnts[d].lg)
NameBytes2(a, e, first) ==
  IF first /\ ~Plain(a.prof)
  THEN (IF Is64(a.prof) THEN LE16((65536 - Len(e.n)) % 65536) ELSE <<(256 - Len(e.n)) % 256>>)
       \o EncDirName(NameKey(a.prof, a.h1, a.t), e.n)
  ELSE EncStrF(a.kid, e.n, e.wide, FALSE)
RECURSIVE ListLens2(_, _), Sum2(_, _, _, _)
Sum2(a, d, i, size) ==
  IF i > Len(a.dirs[d]) THEN 0
  ELSE LET e == a.dirs[d][i] IN 1 + Len(NameBytes2(a, e, i = 1)) + Len(EncInt(size[i], e.lg)) + Len(EncInt(e.ck, FALSE)) + 4 + Sum2(a, d, i + 1, size)
\* declared size of what an entry stands for; a directory that lists nothing is declared empty in the 32-bit forms
Decl(a, e, lens) == IF e.t = "img" THEN Len(a.imgs[e.at].b)
                    ELSE IF a.dirs[e.at] = <<>> /\ ~Is64(a.prof) THEN 0 ELSE lens[e.at]
ListLens2(a, d) ==
  IF d > Len(a.dirs) THEN <<>>
  ELSE LET rest == ListLens2(a, d + 1)
           lens == [j \in (d + 1)..Len(a.dirs) |-> rest[j - d]]
           size == [i \in 1..Len(a.dirs[d]) |-> Decl(a, a.dirs[d][i], lens)]
       IN <<(IF Is64(a.prof) THEN 1 ELSE 2) * Len(CntBytes(a, d)) + Sum2(a, d, 1, size)>> \o rest
Layout2(a) ==
  LET lens == ListLens2(a, 1)
      ds == a.fstart + (IF a.form = "ident" THEN 8 ELSE 0)
      dpos == Starts(lens, ds)
      p2 == dpos[Len(a.dirs)] + lens[Len(a.dirs)]
      n == Len(a.imgs)
      ord == IF a.rev THEN [i \in 1..n |-> n + 1 - i] ELSE [i \in 1..n |-> i]
      ip == Starts([i \in 1..n |-> Len(a.imgs[ord[i]].b)], p2)
  IN [ds |-> ds, lens |-> lens, dpos |-> dpos, ord |-> ord, ipos |-> [i \in 1..n |-> ip[IF a.rev THEN n + 1 - i ELSE i]]]
PutList2(a, L, d) ==
  LET es == a.dirs[d]
      c == CntBytes(a, d)
      heads == Flat([i \in 1..Len(es) |-> <<IF es[i].t = "dir" THEN 3 ELSE 4>> \o NameBytes2(a, es[i], i = 1)
                                             \o EncInt(Decl(a, es[i], L.lens), es[i].lg) \o EncInt(es[i].ck, FALSE)])
      p == L.dpos[d] + Len(c) + Len(heads) + (IF Is64(a.prof) THEN 0 ELSE Len(c))
      w == Low(a)
  IN c \o heads \o (IF Is64(a.prof) THEN <<>> ELSE c)
     \o Flat([i \in 1..Len(es) |-> EncOff2(a.prof, IF es[i].t = "dir" THEN L.dpos[es[i].at] ELSE L.ipos[es[i].at], p + 4 * (i - 1), a.fstart, w.h1, w.t)])
PKG2 == <<80, 75, 71, 50>>
\* headers without an identifier: the hashes and the size scattered over random bytes (positions from 0)
S32 == [h1 |-> <<67, 26, 48, 16>>, h2 |-> <<45, 7, 63, 46>>, sz |-> <<21, 25, 57, 65>>, len |-> 68]
S64 == [h1 |-> <<72, 36, 15, 49, 70, 71, 99, 103>>, h2 |-> <<142, 140, 147, 14, 100, 123, 46, 77>>, sz |-> <<18, 9, 2, 149>>, len |-> 150]
Scatter(s, h1, h2, sz, sd) ==
  LET r == RandBytes(sd, s.len)
      at(ps, v, i) == \E j \in 1..Len(ps) : ps[j] = i - 1
      val(ps, v, i) == v[CHOOSE j \in 1..Len(ps) : ps[j] = i - 1]
  IN [i \in 1..s.len |-> IF at(s.h1, h1, i) THEN val(s.h1, h1, i) ELSE IF at(s.h2, h2, i) THEN val(s.h2, h2, i)
                         ELSE IF at(s.sz, LE32(sz), i) THEN val(s.sz, LE32(sz), i) ELSE r[i]]
Archive2(a, L) ==
  LET body == Flat([d \in 1..Len(a.dirs) |-> PutList2(a, L, d)]) \o Flat([i \in 1..Len(a.imgs) |-> a.imgs[L.ord[i]].b])
  IN CASE a.form = "ident" -> Header(PKG2, 8 + Len(body), a.fstart) \o a.h1 \o a.h2 \o body
       [] a.form = "r32" -> Scatter(S32, a.h1, a.h2, Len(body), a.sd) \o body
       [] OTHER -> Scatter(S64, a.h1, a.h2, Len(body), a.sd) \o body
RECURSIVE TreeOf2(_, _, _)
TreeOf2(a, L, d) ==
  [i \in 1..Len(a.dirs[d]) |-> LET e == a.dirs[d][i] IN
     IF e.t = "dir" THEN [n |-> e.n, k |-> "dir", off |-> L.dpos[e.at], size |-> Decl(a, e, L.lens), c |-> TreeOf2(a, L, e.at)]
     ELSE [n |-> e.n, k |-> "image", off |-> L.ipos[e.at], size |-> Len(a.imgs[e.at].b), c |-> a.imgs[e.at].tree]]

\* ---- the spec's own reader of a 32-bit list at p; keyed: the first name is in the directory form ----
Rd2Bad == [ok |-> FALSE, es |-> <<>>]
RECURSIVE Rd2(_, _, _, _, _), Offs2(_, _, _, _)
Offs2(b, p, es, i) == IF i > Len(es) THEN [ok |-> TRUE, es |-> es]
                      ELSE IF ~Has(b, p, 4) THEN Rd2Bad
                      ELSE Offs2(b, p + 4, [es EXCEPT ![i].pos = p, ![i].enc = Sub(b, p, 4)], i + 1)
DirForm(b, p) == IF ~Has(b, p, 1) THEN [ok |-> FALSE, at |-> 0, len |-> 0, wide |-> TRUE, p |-> 0]
                 ELSE LET n == -S8(At(b, p))  m == IF n <= 0 THEN 0 ELSE 2 * n
                      IN [ok |-> Has(b, p + 1, m), at |-> p + 1, len |-> m, wide |-> TRUE, p |-> p + 1 + m]
Rd2(b, p, keyed, cnt, acc) ==
  IF ~Has(b, p, 1) THEN Rd2Bad
  ELSE IF At(b, p) \in {1, 2} THEN Rd2Bad
  ELSE IF At(b, p) \notin {3, 4} THEN
       LET c == DecInt(b, p) IN IF ~c.ok \/ c.v # cnt \/ acc = <<>> THEN Rd2Bad ELSE Offs2(b, c.p, acc, 1)
  ELSE LET s == IF keyed /\ acc = <<>> THEN DirForm(b, p + 1) ELSE DecStr("none", b, p + 1)
           sz == DecInt(b, s.p)
           ck == DecInt(b, sz.p)
       IN IF ~s.ok THEN Rd2Bad ELSE IF ~sz.ok THEN Rd2Bad ELSE IF ~ck.ok \/ sz.v < 0 THEN Rd2Bad
          ELSE Rd2(b, ck.p, keyed, cnt, Append(acc, [t |-> At(b, p), at |-> s.at, len |-> s.len, wide |-> s.wide, size |-> sz.v, pos |-> 0, enc |-> <<>>]))
ReadList2(b, p, keyed) == LET c == DecInt(b, p) IN IF ~c.ok THEN Rd2Bad ELSE Rd2(b, c.p, keyed, c.v, <<>>)
Ascii(u) == \A i \in 1..Len(u) : u[i] < 128
\* the key a 32-bit list is read with: a regional key, or "dir" for a list in the directory form
Fits(b, rd, kid) == rd.ok /\ rd.es[1].len > 0 /\ AsciiUnder(b, rd.es[1], kid)
ListKey(b, p, hint) ==
  LET rd == ReadList2(b, p, FALSE)
      g == {i \in 1..3 : Fits(b, rd, KeyOrder[i])}
  IN IF hint # "" /\ Fits(b, rd, hint) THEN hint
     ELSE IF g # {} THEN KeyOrder[CHOOSE i \in g : \A j \in g : i <= j]
     ELSE "dir"
\* does a list in the directory form look like one of 1198, whose key is fixed
Looks1198(b, p) == LET rd == ReadList2(b, p, TRUE) IN rd.ok /\ rd.es[1].len > 0 /\ Ascii(DecDirName(H4(\hDEAD, \hBEEF), Sub(b, rd.es[1].at, rd.es[1].len)))
=============================================================================
