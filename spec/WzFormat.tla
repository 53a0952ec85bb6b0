------------------------------ MODULE WzFormat ------------------------------
(* The on-disk form of wz strings, integers and image property lists:        *)
(*  - Enc*: what a writer produces for an abstract tree, given its choices;  *)
(*  - Dec*: what a reader must make of any bytes (a value, or an error).     *)
(* An abstract node is [n, k, v, c, x]: name (UTF-16 units), kind, value     *)
(* (sequence of integers), children, and the writer's encoding choices.      *)
EXTENDS WzBytes

------------------------------------------------------------------------------
(* Key streams.  "none" is the all-zero stream; "affine" is the stream of the *)
(* test decryptor of the harness; other ids index KeyTab (real AES streams).  *)
CONSTANT KeyTab
K(kid, i) == CASE kid = "none" -> 0
               [] kid = "affine" -> (i * 31 + 17) % 256
               [] OTHER -> KeyTab[kid][i + 1]

------------------------------------------------------------------------------
(* Strings *)
IsNarrow(u) == \A i \in 1..Len(u) : u[i] < 128
EncNarrow(kid, u) == [i \in 1..Len(u) |-> (u[i] ^^ ((170 + i - 1) % 256)) ^^ K(kid, i - 1)]
EncWide(kid, u) ==
  LET w(i) == (u[i] ^^ ((43690 + i - 1) % 65536)) ^^ (K(kid, 2*(i-1)) + 256 * K(kid, 2*(i-1) + 1))
  IN [j \in 1..(2 * Len(u)) |->
        LET x == w((j + 1) \div 2) IN IF j % 2 = 1 THEN x % 256 ELSE x \div 256]
\* form: wide? and long length prefix?  (the long prefix is mandatory at the boundary)
EncStrF(kid, u, wide, long) ==
  LET n == Len(u)
      w == wide \/ ~IsNarrow(u)
  IN IF n = 0 /\ ~long THEN <<0>>
     ELSE IF w THEN (IF long \/ n >= 127 THEN <<127>> \o LE32(n) ELSE <<n>>) \o EncWide(kid, u)
     ELSE (IF long \/ n >= 128 THEN <<128>> \o LE32(n) ELSE <<256 - n>>) \o EncNarrow(kid, u)
EncStr(kid, u) == EncStrF(kid, u, FALSE, FALSE)

\* a reader of a string at 0-based position p: [ok, v, p, wide, at, len]
\* at/len: where the raw bytes are, in bytes (for metadata readers)
Bad == [ok |-> FALSE, v |-> <<>>, p |-> 0, wide |-> FALSE, at |-> 0, len |-> 0]
At(b, p) == b[p + 1]
Has(b, p, n) == p >= 0 /\ n >= 0 /\ p <= Len(b) /\ n <= Len(b) - p
Sub(b, p, n) == SubSeq(b, p + 1, p + n)
DecNarrow(kid, r) == EncNarrow(kid, r)
DecWide(kid, r) ==
  [i \in 1..(Len(r) \div 2) |->
     (U16(<<r[2*i-1], r[2*i]>>) ^^ ((43690 + i - 1) % 65536)) ^^ (K(kid, 2*(i-1)) + 256 * K(kid, 2*(i-1) + 1))]
DecStr(kid, b, p) ==
  IF ~Has(b, p, 1) THEN Bad
  ELSE LET l == S8(At(b, p)) IN
    IF l = 0 THEN [ok |-> TRUE, v |-> <<>>, p |-> p + 1, wide |-> FALSE, at |-> p + 1, len |-> 0]
    ELSE LET isw == l > 0
             long == l = 127 \/ l = -128
         IN IF long /\ ~Has(b, p + 1, 4) THEN Bad
            ELSE LET n == IF long THEN I32(Sub(b, p + 1, 4)) ELSE IF isw THEN l ELSE -l
                     q == IF long THEN p + 5 ELSE p + 1
                     m == IF n < 0 \/ n > Len(b) THEN n ELSE IF isw THEN 2 * n ELSE n
                 IN IF n < 0 \/ ~Has(b, q, m) THEN Bad
                    ELSE [ok |-> TRUE, p |-> q + m, wide |-> isw, at |-> q, len |-> m,
                          v |-> IF isw THEN DecWide(kid, Sub(b, q, m)) ELSE DecNarrow(kid, Sub(b, q, m))]
\* a string block: inline, or a reference relative to the image
DecBlock(kid, b, p, base) ==
  IF ~Has(b, p, 1) THEN Bad
  ELSE CASE At(b, p) \in {0, 115} -> DecStr(kid, b, p + 1)
         [] At(b, p) \in {1, 27} ->
              IF ~Has(b, p + 1, 4) THEN Bad
              ELSE LET o == I32(Sub(b, p + 1, 4))
                   IN IF o > Len(b) THEN Bad ELSE LET r == DecStr(kid, b, base + o) IN [r EXCEPT !.p = p + 5]
         [] OTHER -> [ok |-> TRUE, v |-> <<>>, p |-> p + 1, wide |-> FALSE, at |-> p + 1, len |-> 0]

\* a value that is text is only looked for when it is asked for: a reader may show it without the text being there
NoText == <<-1>>
LazyText == FALSE
RECURSIVE Utf16(_, _)
Utf16(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE IF s[i] \in 55296..56319 THEN i < Len(s) /\ s[i + 1] \in 56320..57343 /\ Utf16(s, i + 2)
  ELSE s[i] \notin 56320..57343 /\ Utf16(s, i + 1)
Txt(r) == IF IF r.wide THEN Utf16(r.v, 1) ELSE IsNarrow(r.v) THEN r.v ELSE NoText
HasLen(b, p) == Has(b, p, 1) /\ (S8(At(b, p)) \in {127, -128} => Has(b, p + 1, 4) /\ I32(Sub(b, p + 1, 4)) >= 0)
DecText(kid, b, p, base) ==
  LET r == DecBlock(kid, b, p, base) IN
  IF r.ok \/ ~LazyText THEN r
  ELSE IF Has(b, p, 1) /\ At(b, p) \in {0, 115} /\ HasLen(b, p + 1) THEN [Bad EXCEPT !.ok = TRUE, !.v = NoText, !.p = Len(b) + 1]
  ELSE IF Has(b, p, 5) /\ At(b, p) \in {1, 27} /\ I32(Sub(b, p + 1, 4)) <= Len(b) /\ HasLen(b, base + I32(Sub(b, p + 1, 4)))
       THEN [Bad EXCEPT !.ok = TRUE, !.v = NoText, !.p = p + 5]
  ELSE Bad

------------------------------------------------------------------------------
(* Compressed integers *)
EncInt(n, long) == IF long \/ n < -127 \/ n > 127 THEN <<128>> \o LE32(n) ELSE <<I8(n)>>
EncI64(b8, long) ==   \* b8: 8 LE bytes; short form only for -127..127
  LET small == /\ SubSeq(b8, 2, 8) \in {<<0,0,0,0,0,0,0>>, <<255,255,255,255,255,255,255>>}
               /\ (b8[1] < 128) = (b8[2] = 0)
               /\ ~(b8[2] = 255 /\ b8[1] = 128)
  IN IF long \/ ~small THEN <<128>> \o b8 ELSE <<b8[1]>>
DecInt(b, p) ==
  IF ~Has(b, p, 1) THEN [ok |-> FALSE, v |-> 0, p |-> p]
  ELSE IF At(b, p) = 128
       THEN IF Has(b, p + 1, 4) THEN [ok |-> TRUE, v |-> I32(Sub(b, p + 1, 4)), p |-> p + 5]
            ELSE [ok |-> FALSE, v |-> 0, p |-> p]
       ELSE [ok |-> TRUE, v |-> S8(At(b, p)), p |-> p + 1]
DecI64(b, p) ==
  IF ~Has(b, p, 1) THEN [ok |-> FALSE, v |-> <<>>, p |-> p]
  ELSE IF At(b, p) = 128
       THEN IF Has(b, p + 1, 8) THEN [ok |-> TRUE, v |-> Sub(b, p + 1, 8), p |-> p + 9]
            ELSE [ok |-> FALSE, v |-> <<>>, p |-> p]
       ELSE [ok |-> TRUE, v |-> LE64(S8(At(b, p))), p |-> p + 1]

------------------------------------------------------------------------------
(* Property type names as UTF-16 units *)
sProperty == <<80,114,111,112,101,114,116,121>>
sCanvas   == <<67,97,110,118,97,115>>
sConvex   == <<83,104,97,112,101,50,68,35,67,111,110,118,101,120,50,68>>
sVector   == <<83,104,97,112,101,50,68,35,86,101,99,116,111,114,50,68>>
sSound    == <<83,111,117,110,100,95,68,88,56>>
sUol      == <<85,79,76>>
sRaw      == <<82,97,119,68,97,116,97>>
sVideo    == <<67,97,110,118,97,115,35,86,105,100,101,111>>
sUnk      == <<70,111,111,35,66,97,114>>
ExtName(k) == CASE k = "prop" -> sProperty [] k = "canvas" -> sCanvas [] k = "convex" -> sConvex
                [] k = "vec" -> sVector [] k = "sound" -> sSound [] k = "uol" -> sUol
                [] k = "raw" -> sRaw [] k = "video" -> sVideo [] k = "unk" -> sUnk
ExtKinds == {"prop","canvas","convex","vec","sound","uol","raw","video","unk"}

\* names of convex points: decimal digits of the index (0..99)
DecName(i) == IF i < 10 THEN <<48 + i>> ELSE <<48 + (i \div 10), 48 + (i % 10)>>

------------------------------------------------------------------------------
(* Encoder.  st = [b: bytes so far (image-relative), t: string -> offset]     *)
PutBytes(st, bs) == [st EXCEPT !.b = @ \o bs]
\* f \in {"in0","in73","ref1","ref1b","wide","long"}: how this string is stored
PutStrHere(st, kid, u, f) ==
  LET o == Len(st.b)
  IN [b |-> st.b \o EncStrF(kid, u, f = "wide", f = "long"),
      t |-> IF Len(u) = 0 THEN st.t ELSE (u :> o) @@ st.t]
PutBlock(st, kid, u, f) ==
  IF f \in {"ref1", "ref1b"} /\ u \in DOMAIN st.t
  THEN PutBytes(st, <<IF f = "ref1" THEN 1 ELSE 27>> \o LE32(st.t[u]))
  ELSE PutStrHere(PutBytes(st, <<IF f = "in73" THEN 115 ELSE 0>>), kid, u, f)

RECURSIVE PutList(_, _, _), PutEntries(_, _, _), PutNode(_, _, _), PutExt(_, _, _), PutPoints(_, _, _)
PutList(st, kid, c) == PutEntries(PutBytes(st, EncInt(Len(c), FALSE)), kid, c)
PutEntries(st, kid, c) ==
  IF c = <<>> THEN st ELSE PutEntries(PutNode(st, kid, Head(c)), kid, Tail(c))
PutPoints(st, kid, c) ==
  IF c = <<>> THEN st ELSE PutPoints(PutExt(st, kid, Head(c)), kid, Tail(c))
PutNode(st0, kid, nd) ==
  LET st == PutBlock(st0, kid, nd.n, nd.x.nf)
      lg == nd.x.lg
  IN CASE nd.k = "null"   -> PutBytes(st, <<0>>)
       [] nd.k = "short"  -> PutBytes(st, <<IF lg THEN 11 ELSE 2>> \o LE16(nd.v[1]))
       [] nd.k = "int"    -> PutBytes(st, <<IF nd.x.alt THEN 19 ELSE 3>> \o EncInt(nd.v[1], lg))
       [] nd.k = "long"   -> PutBytes(st, <<20>> \o EncI64(nd.v, lg))
       [] nd.k = "float"  -> PutBytes(st, <<4, 128>> \o nd.v)
       [] nd.k = "fbyte"  -> PutBytes(st, <<4, nd.v[1]>>)
       [] nd.k = "double" -> PutBytes(st, <<5>> \o nd.v)
       [] nd.k = "str"    -> PutBlock(PutBytes(st, <<8>>), kid, nd.v, nd.x.vf)
       [] OTHER ->
            LET h  == PutBytes(st, <<9, 0, 0, 0, 0>>)
                at == Len(st.b) + 2
                e  == PutExt(h, kid, nd)
                p  == PutBytes(e, RandBytes(nd.x.sd, nd.x.pad))
            IN [p EXCEPT !.b = Patch32(p.b, at, Len(p.b) - (at + 3))]
\* the content of an extended property (also a convex point)
PutExt(st0, kid, nd) ==
  LET st == PutBlock(st0, kid, ExtName(nd.k), nd.x.tf)
      J(n) == RandBytes(nd.x.sd + 7, n)
      lg == nd.x.lg
      Kids(s) == IF nd.c = <<>> /\ ~nd.x.alt THEN PutBytes(s, <<0>>)
                 ELSE PutList(PutBytes(s, <<1>> \o J(2)), kid, nd.c)
  IN CASE nd.k = "prop"   -> PutList(PutBytes(st, J(2)), kid, nd.c)
       [] nd.k = "canvas" ->
            LET s1 == Kids(PutBytes(st, J(1)))
            IN PutBytes(s1, EncInt(nd.x.w, lg) \o EncInt(nd.x.h, lg) \o EncInt(nd.x.fm, lg)
                            \o <<nd.x.sc>> \o EncInt(nd.x.pg, lg) \o EncInt(nd.x.u1, lg) \o J(2)
                            \o LE32(Len(nd.v) + 1) \o <<0>> \o nd.v)
       [] nd.k = "convex" -> PutPoints(PutBytes(st, EncInt(Len(nd.c), lg)), kid, nd.c)
       [] nd.k = "vec"    -> PutBytes(st, EncInt(nd.v[1], lg) \o EncInt(nd.v[2], lg))
       [] nd.k = "sound"  -> PutBytes(st, J(1) \o EncInt(Len(nd.v), lg) \o EncInt(nd.x.w, lg)
                                          \o (IF "hd" \in DOMAIN nd.x THEN nd.x.hd ELSE RandBytes(nd.x.sd + 3, nd.x.h)) \o nd.v)
       [] nd.k = "uol"    -> PutBlock(PutBytes(st, J(1)), kid, nd.v, nd.x.vf)
       [] nd.k = "raw"    ->
            LET s1 == IF nd.x.ver = 1 THEN Kids(PutBytes(st, <<1>>)) ELSE PutBytes(st, <<nd.x.ver>>)
            IN PutBytes(s1, EncInt(Len(nd.v), lg) \o nd.v)
       [] nd.k = "video"  -> PutBytes(st, <<0, 0, 1>> \o EncInt(Len(nd.v), lg) \o nd.v)
       [] nd.k = "unk"    -> PutBytes(st, nd.v)

EmptySt == [b |-> <<>>, t |-> <<>>]
EncImage(kid, c) ==
  PutList(PutBytes(PutBytes(EmptySt, <<115>> \o EncStr(kid, sProperty)), <<0, 0>>), kid, c).b

------------------------------------------------------------------------------
(* What the reader must show for an abstract node: name, kind, value, kids    *)
RECURSIVE Abs(_), AbsSeq(_)
AbsSeq(c) == [i \in 1..Len(c) |-> Abs(c[i])]
Abs(nd) ==
  LET kids == IF nd.k = "convex"
              THEN [i \in 1..Len(nd.c) |-> [Abs(nd.c[i]) EXCEPT !.n = DecName(i - 1)]]
              ELSE AbsSeq(nd.c)
  IN [n |-> nd.n,
      k |-> CASE nd.k = "fbyte" -> "float" [] nd.k = "unk" -> "null" [] OTHER -> nd.k,
      v |-> CASE nd.k = "fbyte" -> F32OfByte(nd.v[1])
              [] nd.k = "unk" -> <<>>
              [] nd.k = "canvas" -> <<nd.x.w, nd.x.h, nd.x.pg>>
              [] nd.k = "sound" -> <<nd.x.w>> \o nd.v
              [] OTHER -> nd.v,
      c |-> IF nd.k = "unk" THEN <<>> ELSE kids]

------------------------------------------------------------------------------
(* Decoder: [ok, p, c] / [ok, p, d] -- independent of the encoder             *)
NoL == [ok |-> FALSE, p |-> 0, c |-> <<>>]
NoN == [ok |-> FALSE, p |-> 0, d |-> [n |-> <<>>, k |-> "null", v |-> <<>>, c |-> <<>>]]
Nd(n, k, v, c) == [n |-> n, k |-> k, v |-> v, c |-> c]
Ok1(p, d) == [ok |-> TRUE, p |-> p, d |-> d]
RECURSIVE GetList(_, _, _, _), GetEntries(_, _, _, _, _, _), GetNode(_, _, _, _), GetExt(_, _, _, _, _, _), GetPoints(_, _, _, _, _, _, _, _)
GetList(kid, b, p, base) ==
  LET n == DecInt(b, p)
  IN IF ~n.ok \/ n.v < 0 THEN NoL ELSE GetEntries(kid, b, n.p, base, n.v, <<>>)
GetEntries(kid, b, p, base, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, p |-> p, c |-> acc]
  ELSE LET r == GetNode(kid, b, p, base)
       IN IF ~r.ok THEN NoL ELSE GetEntries(kid, b, r.p, base, n - 1, Append(acc, r.d))
GetPoints(kid, b, p, base, n, i, eob, acc) ==
  IF i = n THEN [ok |-> TRUE, p |-> p, c |-> acc]
  ELSE LET r == GetExt(kid, b, p, base, DecName(i), eob)
       IN IF ~r.ok THEN NoL ELSE IF r.d.k = "unknown" THEN [ok |-> TRUE, p |-> r.p, c |-> <<r.d>>] ELSE GetPoints(kid, b, r.p, base, n, i + 1, eob, Append(acc, r.d))
GetNode(kid, b, p0, base) ==
  LET nm == DecBlock(kid, b, p0, base) IN
  IF ~nm.ok \/ ~Has(b, nm.p, 1) THEN NoN ELSE
  LET t == At(b, nm.p)
      p == nm.p + 1
      Fix(k, w, v) == IF Has(b, p, w) THEN Ok1(p + w, Nd(Txt(nm), k, v, <<>>)) ELSE NoN
  IN CASE t = 0 -> Ok1(p, Nd(Txt(nm), "null", <<>>, <<>>))
       [] t \in {2, 11} -> IF Has(b, p, 2) THEN Fix("short", 2, <<I16(Sub(b, p, 2))>>) ELSE NoN
       [] t \in {3, 19} -> LET r == DecInt(b, p) IN IF r.ok THEN Ok1(r.p, Nd(Txt(nm), "int", <<r.v>>, <<>>)) ELSE NoN
       [] t = 20 -> LET r == DecI64(b, p) IN IF r.ok THEN Ok1(r.p, Nd(Txt(nm), "long", r.v, <<>>)) ELSE NoN
       [] t = 4 -> IF ~Has(b, p, 1) THEN NoN
                   ELSE IF At(b, p) = 128
                        THEN IF Has(b, p + 1, 4) THEN Ok1(p + 5, Nd(Txt(nm), "float", Sub(b, p + 1, 4), <<>>)) ELSE NoN
                        ELSE Ok1(p + 1, Nd(Txt(nm), "float", F32OfByte(At(b, p)), <<>>))
       [] t = 5 -> IF Has(b, p, 8) THEN Fix("double", 8, Sub(b, p, 8)) ELSE NoN
       [] t = 8 -> LET r == DecText(kid, b, p, base) IN IF r.ok THEN Ok1(r.p, Nd(Txt(nm), "str", Txt(r), <<>>)) ELSE NoN
       [] t = 9 -> IF ~Has(b, p, 4) THEN NoN
                   ELSE LET bl == I32(Sub(b, p, 4))
                            eob == IF bl < 0 \/ bl > Len(b) THEN -1 ELSE p + 4 + bl
                            r == GetExt(kid, b, p + 4, base, Txt(nm), eob)
                        IN [r EXCEPT !.p = eob, !.d = IF r.d.k = "unknown" THEN Nd(Txt(nm), "null", <<>>, <<>>) ELSE r.d]
       [] OTHER -> NoN
GetExt(kid, b, p0, base, nm, eob) ==
  LET t == DecBlock(kid, b, p0, base) IN
  IF ~t.ok THEN NoN ELSE
  LET p == t.p
      WithKids(q, k(_, _)) ==     \* child flag at q
        IF ~Has(b, q, 1) THEN NoN
        ELSE IF At(b, q) # 1 THEN k(q + 1, <<>>)
        ELSE LET l == GetList(kid, b, q + 3, base) IN IF l.ok THEN k(l.p, l.c) ELSE NoN
      Blob(q, kind, kids) ==
        LET n == DecInt(b, q) IN
        IF ~n.ok \/ ~Has(b, n.p, n.v) THEN NoN
        ELSE Ok1(n.p + n.v, Nd(nm, kind, Sub(b, n.p, n.v), kids))
      Canvas(q, kids) ==
        LET w == DecInt(b, q)
            h == DecInt(b, w.p)
            f == DecInt(b, h.p)
            g == DecInt(b, f.p + 1)
            u == DecInt(b, g.p)
            s == u.p + 2
        IN IF ~(w.ok /\ h.ok /\ f.ok /\ g.ok /\ u.ok /\ Has(b, s, 7)) THEN NoN
           ELSE LET n == I32(Sub(b, s, 4)) - 1
                IN IF ~Has(b, s + 5, n) THEN NoN
                   ELSE Ok1(s + 5 + n, Nd(nm, "canvas", <<w.v, h.v, g.v>>, kids))
  IN CASE t.v = sProperty -> LET l == GetList(kid, b, p + 2, base)
                             IN IF l.ok THEN Ok1(l.p, Nd(nm, "prop", <<>>, l.c)) ELSE NoN
       [] t.v = sCanvas -> WithKids(p + 1, Canvas)
       [] t.v = sConvex -> LET n == DecInt(b, p)
                               l == GetPoints(kid, b, n.p, base, n.v, 0, eob, <<>>)
                           IN IF ~(n.ok /\ n.v >= 0 /\ l.ok) THEN NoN
                              \* nothing tells where an unknown point ends
                              ELSE Ok1(l.p, IF l.c # <<>> /\ l.c[Len(l.c)].k = "unknown" THEN l.c[Len(l.c)] ELSE Nd(nm, "convex", <<>>, l.c))
       [] t.v = sVector -> LET x == DecInt(b, p)
                               y == DecInt(b, x.p)
                           IN IF x.ok /\ y.ok THEN Ok1(y.p, Nd(nm, "vec", <<x.v, y.v>>, <<>>)) ELSE NoN
       [] t.v = sSound -> LET s == DecInt(b, p + 1)
                              d == DecInt(b, s.p)
                          IN IF s.ok /\ d.ok /\ s.v >= 0 /\ eob - s.v >= d.p /\ Has(b, eob - s.v, s.v)
                             THEN Ok1(eob, Nd(nm, "sound", <<d.v>> \o Sub(b, eob - s.v, s.v), <<>>)) ELSE NoN
       [] t.v = sUol -> LET r == DecText(kid, b, p + 1, base)
                        IN IF r.ok THEN Ok1(r.p, Nd(nm, "uol", Txt(r), <<>>)) ELSE NoN
       [] t.v = sRaw -> IF ~Has(b, p, 1) THEN NoN
                        ELSE IF At(b, p) = 1 THEN WithKids(p + 1, LAMBDA q, kids : Blob(q, "raw", kids))
                        ELSE Blob(p + 1, "raw", <<>>)
       [] t.v = sVideo -> Blob(p + 3, "video", <<>>)
       [] OTHER -> Ok1(p, Nd(nm, "unknown", <<>>, <<>>))
\* an image at 0-based position base
DecImage(kid, b, base) ==
  IF ~Has(b, base, 1) \/ At(b, base) # 115 THEN NoL
  ELSE LET s == DecStr(kid, b, base + 1)
       IN IF ~s.ok \/ ~Has(b, s.p, 2) \/ (s.v # sProperty \/ U16(Sub(b, s.p, 2)) # 0) THEN NoL
          ELSE GetList(kid, b, s.p + 2, base)
=============================================================================
