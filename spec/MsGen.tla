-------------------------------- MODULE MsGen -------------------------------
(* Packs, grown entry by entry; and the file names and salts that do not fit. *)
EXTENDS MsPack, Emit
CONSTANTS MaxEntries, Check
VARIABLES ph, pk, todo
XM == [nf |-> "in0", vf |-> "in73", tf |-> "in73", lg |-> FALSE, alt |-> TRUE, pad |-> 0, sd |-> 1, w |-> 1, h |-> 1, fm |-> 2, sc |-> 0, pg |-> 0, u1 |-> 0, ver |-> 1]
Ent(n, k, v, c) == [n |-> n, k |-> k, v |-> v, c |-> c, x |-> XM]
Ms == <<46, 109, 115>>
FName(i, sd) == CASE i = 0 -> <<97>> \o Ms [] i = 1 -> <<77, 111, 98, 95, 48, 48, 48, 48, 48>> \o Ms [] i = 2 -> <<112, 65, 67, 75>> \o <<46, 77, 83>>
                  [] i = 3 -> [j \in 1..40 |-> 97 + (Mix(sd, j) % 26)] \o Ms [] OTHER -> [j \in 1..((sd % 12) + 1) |-> 97 + (Mix(sd, j) % 26)] \o Ms
Img == <<46, 105, 109, 103>>
EName(i, sd, gen) == CASE i = 0 -> <<97>> [] i = 7 -> <<>> [] i = 1 -> <<77, 111, 98, 47>> \o [j \in 1..7 |-> 48 + (Mix(sd, j) % 10)] \o Img [] i = 2 -> [j \in 1..((sd % 40) + 1) |-> 97 + (Mix(sd, j) % 26)] \o Img
                  [] i = 3 /\ gen = 2 -> <<47800, 97, 53944>> \o Img [] i = 4 /\ gen = 2 -> [j \in 1..20 |-> 44032 + Mix(sd, j)] [] OTHER -> <<73, 47, 48 + (sd % 10), 48 + ((sd \div 10) % 10)>> \o Img
Kids(sd) == <<Ent(<<97>>, "int", <<sd>>, <<>>), Ent(<<98>>, "prop", <<>>, <<Ent(<<99>>, "short", <<7>>, <<>>), Ent(<<100>>, "str", <<20013, 65>>, <<>>)>>)>>
Text(n, sd) == [i \in 1..n |-> 32 + (Mix(sd, i) % 90)]
\* an image of exactly n bytes (or the least there is): text that reaches its end, or bytes behind its end that mean nothing
SizedImage(n, sd, how) ==
  LET small == EncImage("none", Kids(sd))
      base == Len(EncImage("none", Append(Kids(sd), Ent(<<122>>, "str", Text(128, sd), <<>>))))
      kids == IF how = "text" /\ n >= base THEN Append(Kids(sd), Ent(<<122>>, "str", Text(128 + n - base, sd), <<>>)) ELSE Kids(sd)
      b == EncImage("none", kids)
  IN [tree |-> AbsSeq(kids), b |-> IF Len(b) >= n THEN b ELSE b \o RandBytes(sd + 77, n - Len(b))]
Sizes == {0, 0, 60, 61, 62, 63, 64, 65, 127, 128, 192, 255, 256, 257, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1087, 1088, 1089, 2047, 2048, 2049, 2050, 3071, 3072, 3073}
Salts == {0, 1, 2, 5, 15, 16, 17, 31, 32, 64, 127, 128, 200}
\* now and then the table is made to end right on a block of 1024 bytes
FrontLen(g, f, l) == NRand(f) + 2 * l + ((3 * SumOf(f)) % 212) + (IF g = 1 THEN 46 ELSE 77)
Grain(g) == IF g = 1 THEN 4 ELSE 64
FitSalt(g, f, l) == LET S == {x \in l..(l + 31) : x <= NRand(f) /\ FrontLen(g, f, x) % Grain(g) = 0} IN IF S = {} THEN l ELSE CHOOSE x \in S : TRUE
Gap(p) == LET e == FrontLen(p.gen, Low(p.f), Len(p.salt)) + Up(Len(Flat(Fields(p))), Grain(p.gen)) IN IF e % Grain(p.gen) # 0 THEN 0 ELSE (1024 - (e % 1024)) % 1024
Fit(p, i) == [p EXCEPT !.es[i].n = @ \o [j \in 1..(Gap(p) \div 2) |-> 97 + (j % 26)]]
Init == ph = "start" /\ pk = [gen |-> 1, f |-> <<97>>, salt |-> <<>>, sd |-> 0, es |-> <<>>] /\ todo = 0
Start == /\ ph = "start" /\ ph' = "grow"
         /\ \E g \in R({1, 2}) : \E fi \in R(0..6) : \E sd \in R(1..60000) : \E sl \in R(Salts) : \E n \in R(0..MaxEntries) : \E fit \in R(0..2) :
              LET f == FName(fi, sd) l0 == IF sl > NRand(Low(f)) THEN 7 ELSE sl l == IF fit = 0 THEN FitSalt(g, Low(f), l0) ELSE l0 IN
              pk' = [gen |-> g, f |-> f, salt |-> [i \in 1..l |-> 33 + (Mix(sd + 3, i) % 94)], sd |-> sd, es |-> <<>>] /\ todo' = n
Grow == /\ ph = "grow" /\ todo > 0 /\ todo' = todo - 1 /\ ph' = "grow"
        /\ \E ni \in R(0..7) : \E sd \in R(1..60000) : \E sz \in R(IF todo > 6 THEN {0, 60, 61} ELSE Sizes) : \E how \in R({"text", "junk"}) : \E first \in R(0..2) :
             LET nm == EName(ni, sd, pk.gen)
                 im == SizedImage(sz, sd, how)
                 e == [n |-> nm, key |-> RandBytes(sd + 11, 16), at |-> first, data |-> im.b, tree |-> im.tree, misc |-> RandBytes(sd + 12, 20)]
             IN pk' = IF \E i \in 1..Len(pk.es) : pk.es[i].n = nm THEN pk
                      ELSE LET q == [pk EXCEPT !.es = Append(@, e)] IN IF todo = 1 /\ MaxEntries < 10 THEN Fit(q, Len(q.es)) ELSE q
\* where the images are stored: an order of their own, with a free block here and there
RECURSIVE Place(_, _, _)
Place(es, ord, b) == IF ord = <<>> THEN es ELSE LET i == Head(ord) at == b + (IF es[i].at = 2 THEN 1 ELSE 0) IN Place([es EXCEPT ![i].at = at], Tail(ord), at + Blocks(es[i].data))
Perm(n, sd) == SetToSortSeq(1..n, LAMBDA x, y : LET a == Mix(sd, x) b == Mix(sd, y) IN a < b \/ (a = b /\ x < y))
Lay == /\ ph = "grow" /\ todo = 0 /\ ph' = "laid" /\ UNCHANGED todo
       /\ \E sd \in R(0..5) : pk' = [pk EXCEPT !.es = Place(@, IF sd = 0 THEN [i \in 1..Len(@) |-> i] ELSE Perm(Len(@), sd), 0)]
\* names that are not the file's
Wrong(f) == {f \o <<120>>, <<120>> \o f, Tail(f)} \cup (IF f[1] # f[2] THEN {<<f[2], f[1]>> \o SubSeq(f, 3, Len(f))} ELSE {})
Up1(f) == [i \in 1..Len(f) |-> IF f[i] \in 97..122 /\ i % 2 = 0 THEN f[i] - 32 ELSE f[i]]
\* the second generation has no check sum: a character of the salt is missed if it is in the key of the header or of a table that is not empty
Keyed(p, i) == Len(p.f) + i <= 32 \/ (p.es # <<>> /\ i > Len(p.salt) - 32)
Out(p, b) ==
  LET r == NRand(Low(p.f)) + (IF p.gen = 1 THEN 4 ELSE 5)
  IN [op |-> "mspack", gen |-> p.gen, f |-> p.f, same |-> <<Low(p.f), Up1(p.f)>>, bytes |-> b,
      wrong |-> SetToSeq({w \in Wrong(Low(p.f)) : Low(w) # Low(p.f) /\ Len(w) > 3}),
      flip |-> IF p.gen = 1 THEN (IF p.salt = <<>> THEN <<>> ELSE <<<<r, 1>>, <<r + 2 * (Len(p.salt) - 1), 32>>, <<r + 1, 64>>>>) \o <<<<r - 2, 8>>>>
               ELSE (IF p.salt # <<>> /\ Keyed(p, 1) THEN <<<<r, 1>>>> ELSE <<>>) \o (IF p.salt # <<>> /\ Keyed(p, Len(p.salt)) THEN <<<<r + 2 * (Len(p.salt) - 1), 32>>>> ELSE <<>>),
      es |-> [i \in 1..Len(p.es) |-> [n |-> p.es[i].n, b |-> p.es[i].data, tree |-> p.es[i].tree]]]
Finish == /\ ph = "laid" /\ ph' = "done" /\ UNCHANGED <<pk, todo>>
          /\ \E b \in {PackBytes(pk)} :
               /\ (Check /\ pk.gen = 1) => Assert(LET r == ReadPack1(b, pk.f) IN r.ok /\ [i \in 1..Len(r.es) |-> r.es[i]] = [i \in 1..Len(pk.es) |-> [n |-> pk.es[i].n, data |-> pk.es[i].data]], <<"reader", pk.f, pk.salt>>)
               /\ EmitCase(Out(pk, b))
Next == Start \/ Grow \/ Lay \/ Finish
=============================================================================
