-------------------------------- MODULE Links -------------------------------
(* Canvases that stand for others: an inlink is a path from the image of the *)
(* canvas, an outlink a path from the base archive.  A data archive is grown *)
(* and linked at random; for every canvas the picture that must come out,    *)
(* for every link the node it leads to.                                      *)
EXTENDS Pixels, Pkg1, KeyStreams, Emit, SequencesExt
CONSTANTS MaxNodes, Exh
VARIABLES ph, sk, lim, dress

X0 == [nf |-> "in0", vf |-> "in73", tf |-> "in73", lg |-> FALSE, alt |-> TRUE, pad |-> 0, sd |-> 1, w |-> 1, h |-> 1, fm |-> 2, sc |-> 0, pg |-> 0, u1 |-> 0, ver |-> 1]
BaseN == <<66, 97, 115, 101>>
Nm(i) == CASE i = 0 -> <<97>> [] i = 1 -> <<98>> [] i = 2 -> <<48>> [] i = 3 -> <<49>> [] i = 4 -> <<27979>> [] OTHER -> <<99>>
ImgNm(i) == Nm(i) \o <<46, 105, 109, 103>>
sIn == <<95,105,110,108,105,110,107>>   sOut == <<95,111,117,116,108,105,110,107>>
\* ---- the skeleton; sk[1] is the base ----
S0(par, k, n) == [par |-> par, k |-> k, n |-> n, tgt |-> 0, mt |-> "no"]
KidsOf(j) == SelectSeq([i \in 1..Len(sk) |-> i], LAMBDA i : i > 1 /\ sk[i].par = j)
RECURSIVE NP(_), OwnImg(_), Inside(_, _)
NP(j) == IF j = 1 THEN <<>> ELSE Append(NP(sk[j].par), sk[j].n)
OwnImg(j) == IF j = 0 THEN 0 ELSE IF sk[j].k = "image" THEN j ELSE OwnImg(sk[j].par)
Inside(j, i) == j # 0 /\ (j = i \/ Inside(sk[j].par, i))
\* ---- links as text ----
LinkPath(l) ==
  LET t == sk[l].tgt
      full == NP(t)
      p == IF sk[l].n = sIn /\ OwnImg(t) # 0 THEN SubSeq(full, Len(NP(OwnImg(t))) + 1, Len(full)) ELSE full
  IN CASE sk[l].mt = "junk" -> Append(p, <<122>>) [] sk[l].mt = "cut" /\ p # <<>> -> SubSeq(p, 1, Len(p) - 1) [] sk[l].mt = "head" -> <<<<122>>>> \o p
       [] sk[l].mt = "empty" -> Append(p, <<>>) [] sk[l].mt = "up" -> p \o <<<<46, 46>>>> [] sk[l].mt = "base" -> <<BaseN>> \o p [] OTHER -> p
RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<47>> \o Join(Tail(p))
LSteps(p) == IF p = <<>> THEN <<<<>>>> ELSE p          \* the empty text is one empty name
\* ---- where a link leads ----
Child(i, nm) == LET S == {j \in 2..Len(sk) : sk[j].par = i /\ sk[j].n = nm} IN
                IF S = {} THEN 0 ELSE LET j == CHOOSE x \in S : TRUE IN IF sk[j].k = "uol" THEN sk[j].tgt ELSE j
\* Open: the images whose content is there
RECURSIVE LWalk(_, _, _)
LWalk(i, p, Opened) == IF i = 0 \/ p = <<>> THEN i
                      ELSE IF sk[i].k = "image" /\ i \notin Opened THEN 0 ELSE LWalk(Child(i, Head(p)), Tail(p), Opened)
Images == {j \in 1..Len(sk) : sk[j].k = "image"}
HasBase == sk[1].n = BaseN
LinkOf(c, nm) == LET S == {j \in 2..Len(sk) : sk[j].par = c /\ sk[j].n = nm /\ sk[j].k = "lnk"} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
Lead(l, Opened) == IF l = 0 THEN 0 ELSE IF sk[l].n = sIn THEN LWalk(OwnImg(sk[l].par), LSteps(LinkPath(l)), Opened)
                   ELSE IF HasBase THEN LWalk(1, LSteps(LinkPath(l)), Opened) ELSE 0
Next1(c) == LET i == Lead(LinkOf(c, sIn), Images) IN IF i # 0 THEN i ELSE Lead(LinkOf(c, sOut), Images)
RECURSIVE LPic(_, _)
LPic(c, seen) == IF sk[c].k # "canvas" THEN -1
                ELSE LET n == Next1(c) IN IF n = 0 THEN c ELSE IF n \in seen \cup {c} THEN -1 ELSE LPic(n, TLCEval(seen \cup {c}))
Picture(c) == LPic(c, {})
\* ---- bytes ----
RECURSIVE Content(_)
Content(j) ==
  LET ks == KidsOf(j) IN TLCEval(
  [i \in 1..Len(ks) |-> LET e == sk[ks[i]] IN
     [n |-> e.n, k |-> IF e.k = "lnk" THEN "str" ELSE e.k,
      v |-> CASE e.k = "lnk" -> Join(LinkPath(ks[i])) [] e.k = "uol" -> sk[e.tgt].n [] e.k = "int" -> <<ks[i]>>
              [] e.k = "canvas" -> Zlib(<<ks[i] % 256, 0, 77, 255>>, [fixed |-> FALSE, flg |-> 156, n |-> 9]) [] OTHER -> <<>>,
      c |-> IF e.k = "uol" THEN <<>> ELSE Content(ks[i]), x |-> X0]])
Dirs == <<1>> \o SelectSeq([i \in 1..Len(sk) |-> i], LAMBDA i : sk[i].k = "dir")
Imgs == SelectSeq([i \in 1..Len(sk) |-> i], LAMBDA i : sk[i].k \in {"image", "bad"})
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Arch == [kid |-> dress.kid, enc |-> TRUE, fstart |-> 60, ver |-> 95, hash |-> VerHash(95), rev |-> dress.rev,
         dirs |-> [d \in 1..Len(Dirs) |-> LET ks == KidsOf(Dirs[d]) IN
                    [i \in 1..Len(ks) |-> LET e == sk[ks[i]] IN [n |-> e.n, t |-> IF e.k = "dir" THEN "dir" ELSE "img", at |-> IF e.k = "dir" THEN Pos(Dirs, ks[i]) ELSE Pos(Imgs, ks[i]), ck |-> 7, lg |-> FALSE, rf |-> FALSE, wide |-> FALSE]]],
         imgs |-> [i \in 1..Len(Imgs) |-> [b |-> IF sk[Imgs[i]].k = "bad" THEN <<35, 1, 2, 3, 4, 5, 6, 7, 8, 9>> ELSE EncImage(dress.kid, Content(Imgs[i])), tree |-> <<>>]]]
\* ---- growing ----
R1(S) == IF Exh THEN S ELSE R(S)
Init == ph = "start" /\ sk = <<>> /\ lim = 0 /\ dress = [kid |-> "none", rev |-> FALSE]
Begin == /\ ph = "start" /\ ph' = "grow" /\ \E n \in R(4..MaxNodes) : lim' = n
         /\ \E n \in R({BaseN, BaseN, BaseN, BaseN, <<68>>}) : \E k \in R({"none", "gms", "ems"}) : \E r \in R(BOOLEAN) : sk' = <<S0(0, "base", n)>> /\ dress' = [kid |-> k, rev |-> r]
\* ----
\* one canvas after another, each standing for the next; the last for itself, for an earlier one or for nothing
LongWay == /\ ph = "start" /\ ~Exh /\ ph' = "write" /\ lim' = 0
         /\ \E KK \in R({3, 7, 12, 20, 33, 60}) : \E m \in R(1..3) : \E st \in R({1, 2}) : \E e \in R({0, 0, 0, 1, 2}) : \E q \in R(1..KK) : \E o \in R(BOOLEAN) : \E k \in R({"none", "gms", "ems"}) : \E r \in R(BOOLEAN) :
              LET ofi(j) == 2 + (((j \div st) * 2) % m)
                  whr(j) == 1 + m + j
                  nxt(j) == IF j < KK THEN j + 1 ELSE q
                  lkk(j) == [S0(whr(j), "lnk", IF ofi(j) = ofi(nxt(j)) /\ (o \/ j % 3 = 0) THEN sIn ELSE sOut) EXCEPT !.tgt = whr(nxt(j)), !.mt = IF j = KK /\ e = 1 THEN "junk" ELSE "no"]
              IN /\ sk' = TLCEval(<<S0(0, "base", BaseN)>> \o [i \in 1..m |-> S0(1, "image", ImgNm(i - 1))] \o [j \in 1..KK |-> S0(ofi(j), "canvas", <<49, 48 + (j \div 10), 48 + (j % 10)>>)]
                              \o [j \in 1..(IF e = 2 THEN KK - 1 ELSE KK) |-> lkk(j)])
                 /\ dress' = [kid |-> k, rev |-> r]
Room(j) == sk[j].k \in {"base", "dir", "image", "prop", "canvas"}
Grow == /\ ph = "grow" /\ Len(sk) < lim /\ UNCHANGED <<ph, lim, dress>>
        /\ \E j \in R({x \in 1..Len(sk) : Room(x)}) : \E i \in R(0..5) : \E z \in R(0..11) :
             LET k == IF sk[j].k \in {"base", "dir"} THEN (CASE z < 3 -> "dir" [] z = 3 -> "bad" [] OTHER -> "image")
                      ELSE IF sk[j].k = "canvas" THEN (CASE z < 4 -> "canvas" [] z < 8 -> "int" [] OTHER -> "none")
                      ELSE (CASE z < 3 -> "prop" [] z = 3 -> "int" [] OTHER -> "canvas")
                 n == IF k \in {"image", "bad"} \/ (k = "prop" /\ z = 2) \/ (k = "canvas" /\ z = 5) THEN ImgNm(i) ELSE Nm(i)
             IN IF k = "none" \/ Child(j, n) # 0 THEN UNCHANGED sk ELSE sk' = Append(sk, S0(j, k, n))
Stop == ph = "grow" /\ Len(sk) = lim /\ Imgs # <<>> /\ ph' = "links" /\ lim' = 2 /\ UNCHANGED <<sk, dress>>
\* an image is always wanted
More == ph = "grow" /\ Len(sk) = lim /\ Imgs = <<>> /\ lim' = lim + 1 /\ UNCHANGED <<ph, sk, dress>>
\* one canvas after another gets its links; an entry of that name may also be no text
LinksOf(c, z) == CASE z < 3 -> <<>> [] z < 7 -> <<S0(c, "lnk", sIn)>> [] z < 12 -> <<S0(c, "lnk", sOut)>> [] z < 14 -> <<S0(c, "lnk", sIn), S0(c, "lnk", sOut)>>
                  [] z = 14 -> <<S0(c, "int", sIn), S0(c, "lnk", sOut)>> [] OTHER -> <<S0(c, "int", sOut)>>
Uol(c, z) == IF z = 0 /\ Child(sk[c].par, <<117>>) = 0 /\ sk[sk[c].par].k = "prop" THEN <<[S0(sk[c].par, "uol", <<117>>) EXCEPT !.tgt = c]>> ELSE <<>>
Link == /\ ph = "links" /\ UNCHANGED <<ph, dress>> /\ lim <= Len(sk) /\ lim' = lim + 1
        /\ IF sk[lim].k = "canvas" THEN \E z \in R(0..15) : \E u \in R(0..2) : sk' = sk \o LinksOf(lim, z) \o Uol(lim, u) ELSE UNCHANGED sk
Linked == ph = "links" /\ lim > Len(sk) /\ ph' = "aim" /\ lim' = 2 /\ UNCHANGED <<sk, dress>>
Cans == {j \in 1..Len(sk) : sk[j].k = "canvas"}
Aim == /\ ph = "aim" /\ lim <= Len(sk) /\ lim' = lim + 1 /\ UNCHANGED <<ph, dress>>
       /\ IF sk[lim].k # "lnk" THEN UNCHANGED sk
          ELSE \E z \in R(0..7) : \E m \in R(0..20) :
               LET own == {j \in Cans : OwnImg(j) = OwnImg(lim)}
                   pool == IF z = 0 THEN 2..Len(sk) ELSE IF sk[lim].n = sIn /\ z < 7 THEN own ELSE Cans
               IN \E t \in R(pool) : sk' = [sk EXCEPT ![lim].tgt = t, ![lim].mt = CASE m = 0 -> "junk" [] m = 1 -> "cut" [] m = 2 -> "head" [] m = 3 -> "empty" [] m = 4 -> "up" [] m = 5 -> "base" [] OTHER -> "no"]
Aimed == ph = "aim" /\ lim > Len(sk) /\ ph' = "write" /\ UNCHANGED <<sk, lim, dress>>

EmitIt == /\ ph = "write" /\ ph' = "done" /\ UNCHANGED <<sk, lim, dress>>
          /\ \E a \in {Arch} : \E L \in {Layout(a)} :
             LET cs == SetToSeq(Cans)
                 ls == SelectSeq([i \in 1..Len(sk) |-> i], LAMBDA i : sk[i].k = "lnk")
                 ims == SetToSeq(Images)
             IN EmitCase([op |-> "links", kid |-> a.kid, name |-> sk[1].n, bytes |-> Archive(a, L), dirs |-> [d \in 1..(Len(Dirs) - 1) |-> NP(Dirs[d + 1])],
                          imgs |-> [i \in 1..Len(ims) |-> NP(ims[i])],
                          cans |-> [i \in 1..Len(cs) |-> [p |-> NP(cs[i]), own |-> NP(OwnImg(cs[i])), c |-> cs[i], pic |-> Picture(cs[i])]],
                          lnks |-> [i \in 1..Len(ls) |-> LET l == ls[i] w == Lead(l, Images) f == Lead(l, {OwnImg(l)}) IN
                                      [p |-> NP(sk[l].par), own |-> NP(OwnImg(l)), in |-> sk[l].n = sIn, v |-> Join(LinkPath(l)),
                                       to |-> IF w = 0 THEN <<>> ELSE <<NP(w)>>, free |-> IF f = 0 THEN <<>> ELSE <<NP(f)>>]]])
\* (TLC chooses from a constant range at the top of an action once for all behaviours)
Start == \E z \in R(1..(lim + 25)) : IF ph = "start" /\ z = 1 THEN LongWay ELSE Begin
Next == Start \/ Grow \/ Stop \/ More \/ Link \/ Linked \/ Aim \/ Aimed \/ EmitIt
\* ---- facts ----
\* following links ends at a canvas that has none which leads anywhere
Settles == ph = "write" => \A c \in Cans : LET q == Picture(c) IN q # -1 => sk[q].k = "canvas" /\ Next1(q) = 0 /\ Picture(q) = q
\* an inlink never leaves its image
InOwn == ph = "write" => \A l \in 1..Len(sk) : sk[l].k = "lnk" /\ sk[l].n = sIn => LET w == Lead(l, Images) IN w = 0 \/ Inside(w, OwnImg(l))
=============================================================================
