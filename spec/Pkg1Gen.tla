------------------------------ MODULE Pkg1Gen -------------------------------
(* Archives grown entry by entry, encoded, read back by the specification's  *)
(* own reader, and emitted with what every way of opening them must give.    *)
EXTENDS Pkg1, KeyStreams, Emit
CONSTANTS MaxEntries, MaxDirs, Few, AllVers
VARIABLES a, n, goal, phase

Nm(i) == CASE i = 0 -> <<97, 46, 105, 109, 103>> [] i = 1 -> <<98>> [] i = 2 -> <<77, 97, 112>> [] i = 3 -> <<49, 50, 46, 105, 109, 103>>
           [] i = 4 -> <<48, 48, 48, 48, 49, 46, 105, 109, 103>> [] i = 5 -> <<54620, 44544, 46, 105, 109, 103>> [] i = 6 -> <<66, 97, 115, 101>>
           [] i = 7 -> [j \in 1..130 |-> 97 + (j % 26)] [] i = 8 -> <<83, 116, 114, 105, 110, 103, 46, 105, 109, 103>> [] i = 9 -> <<233, 116>>
           [] i = 10 -> [j \in 1..127 |-> 19968 + j] [] i = 11 -> <<67, 104, 97, 114, 97, 99, 116, 101, 114>> [] i = 12 -> <<83, 107, 105, 108, 108>>
           [] OTHER -> <<110, 48 + (i % 10), 48 + ((i \div 10) % 10), 48 + ((i \div 100) % 10), 46, 105, 109, 103>>
X0 == [nf |-> "in0", vf |-> "in73", tf |-> "in73", lg |-> FALSE, alt |-> FALSE, pad |-> 0, sd |-> 1, w |-> 1, h |-> 1, fm |-> 1, sc |-> 0, pg |-> 0, u1 |-> 0, ver |-> 0]
Leaf(nm, k, v) == [n |-> nm, k |-> k, v |-> v, c |-> <<>>, x |-> X0]
Props(i, sd) ==   \* small image contents
  CASE i = 0 -> <<>>
    [] i = 1 -> <<Leaf(<<97>>, "int", <<sd>>)>>
    [] i = 2 -> <<Leaf(<<97>>, "str", <<104, 105, 48 + (sd % 10)>>), [Leaf(<<115>>, "prop", <<>>) EXCEPT !.c = <<Leaf(<<97>>, "short", <<sd % 100>>), Leaf(<<20013>>, "null", <<>>)>>]>>
    [] OTHER -> <<[Leaf(<<118>>, "vec", <<sd, -sd>>) EXCEPT !.x.lg = TRUE], Leaf(<<117>>, "uol", <<122, 122>>)>>
Vers == {1, 2, 9, 10, 48, 62, 83, 95, 99, 100, 113, 176, 230, 999, 1000, 1472, 1999, 2000}
\* versions no search comes to, whose hash has all four bytes or more than fit in them
Far == {2001, 2500, 9999, 10000, 12345, 31415, 65535, 65536, 99999, 100000, 271828, 999999,
        1000000, 1234567, 9999999, 12345678, 87654321, 123456789, 2000000000}
NewEntry(t, nm, at) ==
  \E ck \in R({0, 5, 127, 128, -1, 100000}) : \E rf \in R({FALSE, FALSE, FALSE, TRUE}) : \E lg \in R({FALSE, FALSE, TRUE}) : \E w \in R({FALSE, FALSE, FALSE, TRUE}) :
    \E d \in R(1..Len(a.dirs)) :
      IF nm \in {a.dirs[d][i].n : i \in 1..Len(a.dirs[d])} /\ t # "junk" THEN UNCHANGED a
      ELSE a' = [a EXCEPT !.dirs = [@ EXCEPT ![d] = Append(@, [n |-> nm, t |-> t, at |-> at, ck |-> ck, lg |-> lg, rf |-> rf, wide |-> w])] \o (IF t = "dir" THEN <<<<>>>> ELSE <<>>),
                        !.imgs = IF t = "img" THEN Append(@, [b |-> EncImage(a.kid, a.next.c), tree |-> AbsSeq(a.next.c)]) ELSE @,
                        !.next = [c |-> Props(RandomElement(0..3), RandomElement(0..3000))]]
Init == a = [kid |-> "none"] /\ n = 0 /\ goal = 0 /\ phase = "start"
Start == /\ phase = "start"
         /\ \E kid \in R({"none", "gms", "ems", "custom"}) : \E enc \in R({TRUE, TRUE, FALSE}) : \E fs \in R({16, 17, 60, 200}) : \E rev \in R(BOOLEAN) : \E g \in R(0..MaxEntries) :
            \E v \in R(IF ~enc THEN 770..780 ELSE LET w == RandomElement(0..7) IN IF w = 0 THEN Far ELSE IF w < 4 THEN Vers ELSE 1..2000) :
            /\ a' = [kid |-> kid, enc |-> enc, fstart |-> fs, ver |-> v, hash |-> VerHash(v), rev |-> rev,
                     dirs |-> <<<<>>>>, imgs |-> <<>>, next |-> [c |-> <<>>]]
            /\ goal' = LET w == RandomElement(1..120) IN IF w = 1 THEN 256 ELSE IF w < 4 THEN 300 ELSE g
         /\ n' = 0 /\ phase' = "grow"
\* a long run of images at the root, for lists whose count needs the long integer form
Bulk == /\ phase = "grow" /\ goal = 256 /\ n = 0 /\ n' = 256
        /\ a' = [a EXCEPT !.dirs = <<[i \in 1..256 |-> [n |-> Nm(100 + i), t |-> "img", at |-> i, ck |-> i, lg |-> FALSE, rf |-> FALSE, wide |-> FALSE]]>>,
                          !.imgs = [i \in 1..256 |-> [b |-> EncImage(a.kid, <<>>), tree |-> <<>>]]]
        /\ UNCHANGED <<goal, phase>>
\* directories in directories, an image at the end and one on the way
Nest == /\ phase = "grow" /\ goal = 300 /\ n = 0 /\ n' = 300
        /\ \E k \in R({3, 9, 20, 33, 45}) : \E m \in R(1..(k - 1)) : \E i \in R(0..40) : \E w \in R(BOOLEAN) :
             LET E(nm, t, at) == [n |-> nm, t |-> t, at |-> at, ck |-> 7, lg |-> FALSE, rf |-> w /\ at % 5 = 2, wide |-> FALSE]
                 img == [b |-> EncImage(a.kid, <<Leaf(<<97>>, "int", <<k>>)>>), tree |-> AbsSeq(<<Leaf(<<97>>, "int", <<k>>)>>)]
             IN a' = [a EXCEPT !.dirs = TLCEval([d \in 1..k |-> (IF d = m THEN <<E(Nm(0), "img", 1)>> ELSE <<>>) \o (IF d = k THEN <<E(Nm(3), "img", 2)>> ELSE <<E(Nm(12 + ((i * d) % 9)), "dir", d + 1)>>)]),
                               !.imgs = <<img, img>>]
        /\ UNCHANGED <<goal, phase>>
Grow == /\ phase = "grow" /\ n < goal /\ goal < 256
        /\ \E t \in R(IF Len(a.dirs) < MaxDirs THEN {"img", "img", "dir", "junk"} ELSE {"img", "img", "junk"}) : \E i \in R(0..40) :
             NewEntry(t, Nm(i), IF t = "dir" THEN Len(a.dirs) + 1 ELSE Len(a.imgs) + 1)
        /\ n' = n + 1 /\ UNCHANGED <<goal, phase>>
\* ways of opening: [ver, key, want]: ver 0 = none given; key "" = none given; whole: the bytes are as written
Hints(b, rd, o, whole) ==
  LET es == rd.es
      f == FStart(b)
      used == IF rd.ok THEN KeyFor(b, es, o.key) ELSE ""
      v == IF ~rd.ok THEN -1 ELSE IF o.ver = 0 THEN Detect(b, f, es) ELSE IF Explicit(b, f, es, o.ver) THEN o.ver ELSE -1
      sure == (es # <<>>) => v \in {a.ver, -1}
  IN [ver |-> o.ver, key |-> o.key, v |-> v, hash |-> IF v = -1 THEN 0 ELSE VerHash(v),
      want |-> IF v = -1 \/ used = "" THEN "refuse" ELSE IF whole /\ used = a.kid /\ sure THEN "tree" ELSE "any"]
\* which keys the archive's first name is text under, and the first of those tried
Fits(b, rd) == LET fit == {k \in {"none", "gms", "ems", "custom"} : rd.es # <<>> /\ TextUnder(b, rd.es[1], k)}
                   seen == {i \in 1..3 : KeyOrder[i] \in fit}
               IN [fits |-> fit, first |-> IF seen = {} THEN "" ELSE KeyOrder[CHOOSE i \in seen : \A j \in seen : i <= j]]
Case(b, ways, tree, ivs) == [op |-> "pkg1", ivs |-> ivs, kid |-> a.kid, ver |-> a.ver, enc |-> a.enc, fstart |-> a.fstart, bytes |-> b, tree |-> tree, ways |-> ways, order |-> RandomElement(0..5)]
Wrong == RandomElement(1..2000)
WayA == {[ver |-> 0, key |-> ""], [ver |-> a.ver, key |-> ""], [ver |-> 0, key |-> a.kid], [ver |-> a.ver, key |-> a.kid]}
WayB == {[ver |-> Wrong, key |-> ""], [ver |-> Wrong, key |-> a.kid], [ver |-> 0, key |-> "none"], [ver |-> 0, key |-> "gms"], [ver |-> 0, key |-> "ems"], [ver |-> 0, key |-> "custom"],
         [ver |-> a.ver + 1, key |-> ""], [ver |-> a.ver - 1, key |-> ""]} \ {[ver |-> 0, key |-> ""]}
WayF == {[ver |-> 0, key |-> ""], [ver |-> a.ver, key |-> "gms"], [ver |-> a.ver + 1, key |-> ""], [ver |-> a.ver - 1, key |-> "gms"]}
\* bytes that are (mostly) no archive
Damage(b, how, L) ==
  CASE how = 0 -> <<>>
    [] how = 1 -> SubSeq(b, 1, RandomElement(0..(IF Len(b) < 20 THEN Len(b) ELSE 20)))
    [] how \in {2, 3} -> SubSeq(b, 1, RandomElement(0..Len(b)))
    [] how = 4 -> [b EXCEPT ![RandomElement(1..4)] = RandomElement(0..255)]
    [] how = 5 -> [b EXCEPT ![RandomElement(5..16)] = RandomElement(0..255)]
    [] how = 6 -> RandBytes(RandomElement(0..30000), RandomElement(0..300))
    [] how = 7 -> SubSeq(b, 1, L.ds) \o RandBytes(RandomElement(0..30000), RandomElement(0..60))
    [] OTHER -> [b EXCEPT ![RandomElement((L.ds - 1)..Len(b))] = RandomElement(0..255)]
Real == SelectSeq(a.dirs[1], LAMBDA e : e.t # "junk")
Finish == /\ phase = "grow" /\ n >= goal
          /\ \E L \in {Layout(a)} : \E b \in {Archive(a, L)} : \E rd \in {ReadArchive(b)} :
             /\ Assert(rd.ok /\ Len(rd.es) = Len(Real), "the specification's reader does not find the entries written")
             /\ Assert(FStart(b) = a.fstart /\ HasEncVer(b, a.fstart) = a.enc, "version header presence is ambiguous")
             /\ Assert(\A i \in 1..Len(rd.es) : WVal(DecOff(rd.es[i].enc, rd.es[i].pos, a.fstart, a.hash)) = (IF Real[i].t = "dir" THEN L.dpos[Real[i].at] ELSE L.ipos[Real[i].at]), "offset does not decode")
             /\ EmitCase(Case(b, {Hints(b, rd, o, TRUE) : o \in IF Few THEN WayF ELSE WayA \cup WayB}, TreeOf(a, L, 1), Fits(b, rd)))
             /\ IF Few \/ Len(b) > 3000 THEN TRUE ELSE \A i \in 1..3 :
                  \E m \in {Damage(b, RandomElement(0..9), L)} : \E r2 \in {ReadArchive(m)} :
                     EmitCase(Case(m, {Hints(m, r2, o, FALSE) : o \in WayA}, <<>>, <<>>))
          /\ phase' = "done" /\ UNCHANGED <<a, n, goal>>
\* every version, on one fixed archive
InitAll == /\ \E v \in AllVers : \E enc \in (IF v \in 770..780 THEN BOOLEAN ELSE {TRUE}) :
              a = [kid |-> "gms", enc |-> enc, fstart |-> 60, ver |-> v, hash |-> VerHash(v), rev |-> FALSE,
                   dirs |-> <<<<[n |-> Nm(2), t |-> "dir", at |-> 2, ck |-> 5, lg |-> FALSE, rf |-> FALSE, wide |-> FALSE], [n |-> Nm(0), t |-> "img", at |-> 1, ck |-> 0, lg |-> FALSE, rf |-> FALSE, wide |-> FALSE]>>,
                              <<[n |-> Nm(3), t |-> "img", at |-> 2, ck |-> 5, lg |-> FALSE, rf |-> FALSE, wide |-> FALSE]>>>>,
                   imgs |-> <<[b |-> EncImage("gms", <<>>), tree |-> <<>>], [b |-> EncImage("gms", <<>>), tree |-> <<>>]>>, next |-> [c |-> <<>>]]
           /\ n = 0 /\ goal = 0 /\ phase = "grow"
OneIn5 == {v \in 1..2000 : v % 5 = RunSeed % 5} \cup (770..780)
EveryVer == 1..2000
Next == Start \/ Grow \/ Bulk \/ Nest \/ Finish
=============================================================================
