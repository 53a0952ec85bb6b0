----------------------------- MODULE DamagePkg2 -----------------------------
(* Second-generation archives cut short or with bytes changed, opened with    *)
(* their profile remembered: images the damage is not inside of stay           *)
(* readable, unreadable lists are refused.                                     *)
EXTENDS Pkg2Gen, SequencesExt
Yes == TRUE
Hit(L, p) == \E i \in 1..Len(a.imgs) : p > L.ipos[i] /\ p < L.ipos[i] + Len(a.imgs[i].b)
RECURSIVE Wanted(_, _, _)
Wanted(b, L, d) ==
  [ok |-> TRUE, c |-> [i \in 1..Len(a.dirs[d]) |-> LET e == a.dirs[d][i] IN
     IF e.t = "dir" THEN [ok |-> TRUE, n |-> e.n, k |-> "dir", off |-> L.dpos[e.at], size |-> Decl(a, e, L.lens), c |-> Wanted(b, L, e.at).c]
     ELSE LET r == DecImage(a.kid, b, L.ipos[e.at])
          IN [ok |-> r.ok, n |-> e.n, k |-> "image", off |-> L.ipos[e.at], size |-> Len(a.imgs[e.at].b), c |-> IF r.ok THEN r.c ELSE <<>>]]]
\* nothing can be made of the root list, whatever the key
NoList(b, L) == ~Is64(a.prof) /\ ~ReadList2(b, L.ds, TRUE).ok /\ ~ReadList2(b, L.ds, FALSE).ok
\* "hit": the tree stands but for one image; "refuse"; "any"; "" is left out (it only costs a search through every key)
Want(b, L, p) == IF Hit(L, p) THEN [how |-> "hit", w |-> Wanted(b, L, 1)]
                 ELSE IF p >= L.ds /\ NoList(b, L) THEN [how |-> "refuse", w |-> [ok |-> FALSE, c |-> <<>>]]
                 ELSE [how |-> IF Is64(a.prof) THEN "any" ELSE "", w |-> [ok |-> FALSE, c |-> <<>>]]
WantCut(b, L, k) == IF a.form # "ident" /\ k > 0 THEN [how |-> "refuse", w |-> [ok |-> FALSE, c |-> <<>>]]
                    ELSE IF k < L.ds \/ NoList(b, L) THEN [how |-> "refuse", w |-> [ok |-> FALSE, c |-> <<>>]] ELSE [how |-> "", w |-> [ok |-> FALSE, c |-> <<>>]]
Spot(b, L) == LET w == RandomElement(0..9) IN
  IF w < 4 /\ a.imgs # <<>> THEN LET i == RandomElement(1..Len(a.imgs)) IN L.ipos[i] + RandomElement(0..(Len(a.imgs[i].b) - 1))
  ELSE IF w < 9 THEN L.ds + RandomElement(0..(L.lens[1] - 1)) ELSE RandomElement(0..(Len(b) - 1))
Value(v) == LET w == RandomElement(0..3) IN IF w = 0 THEN RandomElement({0, 1, 2, 3, 4, 127, 128, 129, 255}) ELSE IF w = 1 THEN v ^^ 128 ELSE IF w = 2 THEN (v + 1) % 256 ELSE RandomElement(0..255)
CutAt(b, L) == IF RandomElement(0..3) = 0 THEN RandomElement(0..(Len(b) - 1)) ELSE RandomElement(0..(L.ds + L.lens[1] - 1))
Done ==
  /\ phase = "grow" /\ n >= goal
  /\ \E L \in {Layout2(a)} : \E b \in {Archive2(a, L)} :
     \E ms \in {{LET p == Spot(b, L) IN <<p, Value(b[p + 1])>> : i \in 1..16}} : \E cs \in {{CutAt(b, L) : i \in 1..6}} :
     LET plain == ListKey(b, L.ds, a.kid) = a.kid
         clear == Key(Low(a).t) /\ (IF Is64(a.prof) THEN TRUE ELSE IF Plain(a.prof) THEN plain ELSE ListKey(b, L.ds, "") = "dir" /\ (a.prof = "Pkg2V1198" \/ ~Looks1198(b, L.ds)))
     IN IF ~clear THEN TRUE
        ELSE EmitCase([op |-> "dmgpkg2", key |-> IF Plain(a.prof) THEN a.kid ELSE "", prof |-> a.prof, form |-> a.form, bytes |-> b, cache |-> <<Rem(a.prof, a.t)>>,
               cuts |-> SetToSeq({<<k, WantCut(SubSeq(b, 1, k), L, k)>> : k \in cs}),
               muts |-> SetToSeq({<<m[1], m[2], Want([b EXCEPT ![m[1] + 1] = m[2]], L, m[1])>> : m \in ms})])
  /\ phase' = "case" /\ UNCHANGED <<a, n, goal, out, cache, left>>
NextDmg == StartCase \/ StartArch \/ Grow \/ Done
=============================================================================
