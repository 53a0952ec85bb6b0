------------------------------ MODULE Pkg2Gen -------------------------------
(* Second-generation archives grown entry by entry and emitted, one or more   *)
(* per case, with the profiles remembered before (Mode "cached") or none      *)
(* (Mode "detect"); and version keys with the stored hashes they give.        *)
EXTENDS Pkg2, KeyStreams, Emit
CONSTANTS MaxEntries, MaxDirs, Mode, DetectProfs
ByShard == <<"Pkg2V1199", "Pkg2V1200", "Pkg2V1197", "Pkg2V1201", "Pkg2V1198", "Pkg2V1196">>
VARIABLES a, n, goal, phase, out, cache, left

Nm(i) == CASE i = 0 -> <<97, 46, 105, 109, 103>> [] i = 1 -> <<98>> [] i = 2 -> <<77, 97, 112>> [] i = 3 -> <<49, 50, 46, 105, 109, 103>>
           [] i = 4 -> <<95, 67, 97, 110, 118, 97, 115>> [] i = 5 -> <<54620, 44544, 46, 105, 109, 103>> [] i = 6 -> <<66, 97, 115, 101>>
           [] i = 7 -> [j \in 1..126 |-> 97 + (j % 26)] [] i = 8 -> <<83, 116, 114, 105, 110, 103, 46, 105, 109, 103>> [] i = 9 -> <<233, 116>>
           [] i = 10 -> [j \in 1..127 |-> 19968 + j] [] i = 11 -> <<67, 104, 97, 114, 97, 99, 116, 101, 114>> [] i = 12 -> <<83, 107, 105, 108, 108>>
           [] i = 13 -> [j \in 1..128 |-> 65 + (j % 26)] [] i = 14 -> [j \in 1..300 |-> 65 + (j % 26)] [] i = 15 -> [j \in 1..129 |-> 44032 + j]
           [] OTHER -> <<110, 48 + (i % 10), 48 + ((i \div 10) % 10), 48 + ((i \div 100) % 10), 46, 105, 109, 103>>
X0 == [nf |-> "in0", vf |-> "in73", tf |-> "in73", lg |-> FALSE, alt |-> FALSE, pad |-> 0, sd |-> 1, w |-> 1, h |-> 1, fm |-> 1, sc |-> 0, pg |-> 0, u1 |-> 0, ver |-> 0]
Leaf(nm, k, v) == [n |-> nm, k |-> k, v |-> v, c |-> <<>>, x |-> X0]
Props(i, sd) ==
  CASE i = 0 -> <<>>
    [] i = 1 -> <<Leaf(<<97>>, "int", <<sd>>)>>
    [] OTHER -> <<Leaf(<<97>>, "str", <<104, 105, 48 + (sd % 10)>>), [Leaf(<<115>>, "prop", <<>>) EXCEPT !.c = <<Leaf(<<97>>, "short", <<sd % 100>>), Leaf(<<20013>>, "null", <<>>)>>]>>
\* 4-byte words: odd ones and random ones
RandW(sd) == RandBytes(sd, 4)
Word(i, sd) == CASE i = 0 -> <<0, 0, 0, 0>> [] i = 1 -> <<255, 255, 255, 255>> [] i = 2 -> <<0, 0, 0, 128>> [] i = 3 -> <<1, 0, 0, 0>>
                 [] i = 4 -> <<0, 0>> \o LE16(sd) [] i = 5 -> LE16(sd) \o <<0, 0>> [] i = 6 -> <<(sd % 8) * 32>> \o SubSeq(RandW(sd), 2, 4)
                 [] i = 7 -> <<(sd % 16) * 16>> \o SubSeq(RandW(sd), 2, 4) [] i = 8 -> <<255 - (sd % 16), 255, 255, 255>> [] OTHER -> RandW(sd)
Counts(lo) == LET v == RandomElement({5, 6, 100, 127, 128, 200, 70000, 16777216, 2147483647, 1234567890} \cup (IF lo THEN {-1, -100, -127, -128, -70000, -2147483647} ELSE {}))
              IN [v |-> IF RandomElement(0..2) = 0 THEN v ELSE RandomElement(100000..2000000000), lg |-> RandomElement(0..3) = 0]
Key(w) == w # <<0, 0, 0, 0>>
Blank == [dirs |-> <<>>]
Init == a = Blank /\ n = 0 /\ goal = 0 /\ phase = "case" /\ out = <<>> /\ cache = <<>> /\ left = 0
StartCase == /\ phase = "case"
             /\ \E k \in R(1..3) : left' = IF Mode = "detect" THEN 2 ELSE k
             /\ out' = <<>> /\ cache' = <<>> /\ phase' = "arch" /\ UNCHANGED <<a, n, goal>>
Forms(p) == IF Is64(p) THEN {"r64"} ELSE IF p = "Pkg2V1201" THEN {"r32"} ELSE {"ident", "ident", "r32"}
StartArch ==
  /\ phase = "arch" /\ left > 0
  /\ \E p \in R(IF Mode = "detect" /\ out # <<>> THEN {a.prof} ELSE IF Mode = "detect" THEN {DetectProfs[(Shard % Len(DetectProfs)) + 1]} ELSE Profs) :
     \E form \in R(Forms(p)) : \E fs \in R({16, 17, 60, 200}) : \E rev \in R(BOOLEAN) : \E g \in R(1..MaxEntries) :
     \E i1 \in R(0..24) : \E i2 \in R(0..24) : \E s1 \in R(1..60000) : \E s2 \in R(1..60000) : \E s3 \in R(1..60000) : \E kid \in R({"none", "gms", "ems", "custom"}) :
     \E h1 \in {Word(i1, s1) \o (IF Is64(p) THEN RandW(s3) ELSE <<>>)} :
     \E t \in {IF Mode = "detect" /\ out # <<>> THEN a.t ELSE Word(IF i2 = 0 THEN 1 ELSE i2, s2) \o (IF Is64(p) THEN RandW(s1) ELSE <<>>)} :
       a' = [prof |-> p, form |-> form, fstart |-> IF form = "r32" THEN 68 ELSE IF form = "r64" THEN 150 ELSE fs,
             h1 |-> h1, t |-> t, h2 |-> Hash2(GenOf(p), h1, t), kid |-> IF ~Plain(p) THEN "none" ELSE IF Mode = "detect" /\ kid = "custom" THEN "gms" ELSE kid,
             rev |-> rev, dirs |-> <<<<>>>>, imgs |-> <<>>, cnts |-> <<Counts(TRUE)>>, sd |-> s3, hint |-> ""]
       /\ goal' = g
  /\ n' = 0 /\ phase' = "grow" /\ UNCHANGED <<out, cache, left>>
\* what can be first in a list: 128 characters at most, and in the 64-bit form more; ASCII where the key is told by it
NameOk(d, nm) == a.dirs[d] # <<>> \/ (IF Plain(a.prof) THEN (d > 1 \/ Ascii(nm)) ELSE Is64(a.prof) \/ Len(nm) <= 128)
Grow ==
  /\ phase = "grow" /\ n < goal
  /\ \E t \in R(IF Len(a.dirs) < MaxDirs THEN {"img", "img2", "dir"} ELSE {"img"}) : \E i \in R(0..45) : \E d \in R(1..Len(a.dirs)) :
     \E ck \in R({0, 5, 127, 128, -1, 100000}) : \E lg \in R({FALSE, FALSE, TRUE}) : \E w \in R({FALSE, FALSE, TRUE}) : \E pi \in R(0..2) : \E ps \in R(0..3000) :
       LET nm == Nm(i)
           tt == IF t = "dir" THEN "dir" ELSE "img"
           at == IF tt = "dir" THEN Len(a.dirs) + 1 ELSE Len(a.imgs) + 1
           dd == IF n = 0 THEN 1 ELSE d
       IN IF nm \in {a.dirs[dd][j].n : j \in 1..Len(a.dirs[dd])} \/ ~NameOk(dd, nm) THEN UNCHANGED <<a, n>>
          ELSE /\ a' = [a EXCEPT !.dirs = [@ EXCEPT ![dd] = Append(@, [n |-> nm, t |-> tt, at |-> at, ck |-> ck, lg |-> lg, wide |-> w])] \o (IF tt = "dir" THEN <<<<>>>> ELSE <<>>),
                                 !.cnts = IF tt = "dir" THEN Append(@, Counts(FALSE)) ELSE @,
                                 !.imgs = IF tt = "img" THEN Append(@, [b |-> EncImage(a.kid, Props(pi, ps)), tree |-> AbsSeq(Props(pi, ps))]) ELSE @]
               /\ n' = n + 1
  /\ UNCHANGED <<goal, phase, out, cache, left>>
W8(w) == w \o (IF Len(w) = 4 THEN <<0, 0, 0, 0>> ELSE <<>>)
Rem(p, t) == [profile |-> p, hash |-> W8(t)]
Hints == IF Plain(a.prof) THEN {"", a.kid, "gms", "custom"} ELSE {"", "gms", "kmst1198"}
Finish ==
  /\ phase = "grow" /\ n >= goal
  /\ \E L \in {Layout2(a)} : \E b \in {Archive2(a, L)} : \E w \in {Low(a)} :
     LET rd == ReadList2(b, L.ds, ~Plain(a.prof))
         es == a.dirs[1]
         e1 == rd.es[1]
         nm == IF Plain(a.prof) THEN NameUnder(b, e1, a.kid) ELSE DecDirName(NameKey(a.prof, a.h1, a.t), Sub(b, e1.at, e1.len))
         \* ways that must find the tree
         ways == {h \in Hints : IF Is64(a.prof) THEN TRUE
                                ELSE LET k == ListKey(b, L.ds, IF h = "kmst1198" THEN "" ELSE h)
                                     IN IF Plain(a.prof) THEN k = a.kid ELSE k = "dir" /\ (a.prof = "Pkg2V1198" \/ ~Looks1198(b, L.ds))}
     IN /\ Assert(Produces(GenOf(a.prof), a.h1, a.h2, a.t), "the key does not give the hash")
        /\ Assert(Is64(a.prof) \/ (rd.ok /\ Len(rd.es) = Len(es)), "the specification's reader does not find the entries written")
        /\ Assert(Is64(a.prof) \/ nm = es[1].n, "the first name does not decode")
        /\ Assert(Is64(a.prof) \/ \A i \in 1..Len(es) : WVal(DecOff2(a.prof, rd.es[i].enc, rd.es[i].pos, a.fstart, w.h1, w.t)) = (IF es[i].t = "dir" THEN L.dpos[es[i].at] ELSE L.ipos[es[i].at]), "offset does not decode")
        /\ out' = IF ways = {} \/ ~Key(w.t) THEN out
                  ELSE Append(out, [profile |-> a.prof, form |-> a.form, h1 |-> W8(a.h1), h2 |-> W8(a.h2), hash |-> W8(a.t), kid |-> a.kid, bytes |-> b,
                                    ways |-> ways, tree |-> TreeOf2(a, L, 1), order |-> RandomElement(0..5)])
        /\ cache' = IF Mode = "detect" \/ (Is64(a.prof) /\ RandomElement(0..1) = 0) THEN cache
                    ELSE LET r == Rem(a.prof, a.t)
                             decoy == IF RandomElement(0..1) = 0 THEN <<Rem(RandomElement(Profs), RandW(RandomElement(1..60000)))>>
                                      ELSE <<Rem("Pkg2V1196", WXor(WRotl(w.h1, 7), L4(a.h2)))>>      \* fits the header, not the content
                         IN IF RandomElement(0..1) = 0 THEN cache \o decoy \o <<r>> ELSE <<r>> \o cache \o decoy
  /\ left' = left - 1 /\ phase' = "arch" /\ UNCHANGED <<a, n, goal>>
EmitAll ==
  /\ phase = "arch" /\ left = 0
  /\ IF out = <<>> THEN TRUE ELSE EmitCase([op |-> "pkg2", archives |-> out, cache |-> cache])
  /\ phase' = "done" /\ UNCHANGED <<a, n, goal, out, cache, left>>
Next == StartCase \/ StartArch \/ Grow \/ Finish \/ EmitAll
=============================================================================
