----------------------------- MODULE DamagePkg ------------------------------
(* Archives cut short or with bytes changed: what may still be listed, and   *)
(* which of their images must still be readable.                             *)
EXTENDS Pkg1Gen, SequencesExt
Yes == TRUE
RECURSIVE RdTree(_, _, _, _, _, _, _)
NoTree == [ok |-> FALSE, c |-> <<>>]
NameText(b, e, kid) == Txt([wide |-> e.wide, v |-> NameUnder(b, e, kid)])
\* the list at p of declared size, inside of the lists in opened
RdTree(b, kid, fs, h, p, size, opened) ==
  IF p \in opened THEN NoTree
  ELSE IF size = 0 THEN [ok |-> TRUE, c |-> <<>>]
  ELSE LET rd == Entries(b, p, fs) IN
    IF ~rd.ok \/ ~Verifies(b, rd.es, fs, h) THEN NoTree
    ELSE LET Off(e) == WVal(DecOff(e.enc, e.pos, fs, h))
             c == [i \in 1..Len(rd.es) |->
                    LET e == rd.es[i] IN
                    IF e.t = 3 THEN LET s == RdTree(b, kid, fs, h, Off(e), e.size, opened \cup {p})
                                    IN [ok |-> s.ok, n |-> NameText(b, e, kid), k |-> "dir", off |-> Off(e), size |-> e.size, c |-> s.c]
                    ELSE LET s == DecImage(kid, b, Off(e))
                         IN [ok |-> s.ok, n |-> NameText(b, e, kid), k |-> "image", off |-> Off(e), size |-> e.size, c |-> IF s.ok THEN s.c ELSE <<>>]]
         IN [ok |-> \A i \in 1..Len(c) : c[i].k = "dir" => c[i].ok, c |-> c]
\* what opening with the right version and key may show: nothing but an error, or this tree
WantTree(b) ==
  LET rd == ReadArchive(b) IN
  IF ~rd.ok \/ KeyFor(b, rd.es, a.kid) = "" \/ ~Explicit(b, FStart(b), rd.es, a.ver) THEN NoTree
  ELSE LET f == FStart(b) IN RdTree(b, KeyFor(b, rd.es, a.kid), f, a.hash, f + (IF HasEncVer(b, f) THEN 2 ELSE 0), Len(b), {})
Hit(L, p) == \E i \in 1..Len(a.imgs) : p > L.ipos[i] /\ p < L.ipos[i] + Len(a.imgs[i].b)
\* a byte to change: inside an image, of the directory lists, of the header
Spot(b, L) == LET w == RandomElement(0..9) IN
  IF w < 4 /\ a.imgs # <<>> THEN LET i == RandomElement(1..Len(a.imgs)) IN L.ipos[i] + RandomElement(0..(Len(a.imgs[i].b) - 1))
  ELSE IF w = 4 THEN RandomElement(0..(L.ds - 1)) ELSE RandomElement((L.ds - 2)..(Len(b) - 1))
Value(v) == LET w == RandomElement(0..3) IN IF w = 0 THEN RandomElement({0, 1, 2, 3, 4, 127, 128, 129, 255}) ELSE IF w = 1 THEN v ^^ 128 ELSE IF w = 2 THEN (v + 1) % 256 ELSE RandomElement(0..255)
Muts(b, L, cnt) == {LET p == Spot(b, L) IN <<p, Value(b[p + 1])>> : i \in 1..cnt}
Done == /\ phase = "grow" /\ n >= goal
        /\ \E L \in {Layout(a)} : \E b \in {Archive(a, L)} : \E ms \in {Muts(b, L, 14)} : \E cs \in {{RandomElement(0..(Len(b) - 1)) : i \in 1..6}} :
           LET whole == WantTree(b)
           IN /\ Assert(whole.ok \/ KeyFor(b, ReadArchive(b).es, a.kid) # a.kid, "the specification's reader refuses its own archive")
              /\ EmitCase([op |-> "dmgpkg", kid |-> a.kid, ver |-> a.ver, bytes |-> b, tree |-> whole.c, sure |-> KeyFor(b, ReadArchive(b).es, a.kid) = a.kid,
                     cuts |-> SetToSeq({<<k, WantTree(SubSeq(b, 1, k))>> : k \in cs}),
                     muts |-> SetToSeq({<<m[1], m[2], Hit(L, m[1]), WantTree([b EXCEPT ![m[1] + 1] = m[2]])>> : m \in ms})])
        /\ phase' = "done" /\ UNCHANGED <<a, n, goal>>
NextDmg == Start \/ Grow \/ Done
=============================================================================
