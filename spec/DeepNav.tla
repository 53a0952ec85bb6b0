------------------------------- MODULE DeepNav ------------------------------
(* A long way down: folders, the base archive, folders again, an image and   *)
(* properties in it.  Every level answers the way a short one does: its      *)
(* paths, the image and the base archive above it, the way back up and a     *)
(* link that points far up.                                                  *)
EXTENDS WzFormat, Emit, SequencesExt
CONSTANTS Runs, Part
VARIABLES ph
MkRuns == { [up |-> u, dn |-> d, lv |-> k] : u \in {0, 1, 40}, d \in {0, 2, 70}, k \in {3, 30, 70, 140} }
MkLong == MkRuns \cup { [up |-> u, dn |-> d, lv |-> k] : u \in {0, 150}, d \in {0, 200}, k \in {260} }
Str(u) == EncStrF("none", u, FALSE, FALSE)
Digits(i) == IF i < 10 THEN <<48 + i>> ELSE IF i < 100 THEN <<48 + (i \div 10), 48 + (i % 10)>> ELSE <<48 + (i \div 100), 48 + ((i \div 10) % 10), 48 + (i % 10)>>
\* names come back on the way down
Name(i) == CASE i % 7 = 3 -> Digits(i % 13) [] i % 7 = 5 -> <<97>> [] i % 7 = 6 -> <<54620, 97 + (i % 3)>> [] OTHER -> <<97 + (i % 5), 98>>
Num(v) == <<0>> \o Str(<<118>>) \o <<3>> \o EncInt(v, FALSE)
Down(nm, l) == LET body == <<115>> \o Str(sProperty) \o <<0, 0>> \o l IN <<0>> \o Str(nm) \o <<9>> \o LE32(Len(body)) \o body
\* the link in the last list, m levels up
Ups(m) == Flat([i \in 1..m |-> <<46, 46, 47>>])
Lnk(m) == LET body == <<115>> \o Str(<<85,79,76>>) \o <<0>> \o <<0>> \o Str(Ups(m) \o <<118>>) IN <<0>> \o Str(<<108>>) \o <<9>> \o LE32(Len(body)) \o body
\* level i holds v = i and level i + 1
RECURSIVE Lev(_, _, _)
Lev(k, i, m) == IF i = k THEN TLCEval(<<2>> \o Num(i) \o Lnk(m)) ELSE TLCEval(<<2>> \o Num(i) \o Down(Name(i + 1), Lev(k, i + 1, m)))
Bytes(k, m) == <<115>> \o Str(sProperty) \o <<0, 0>> \o Lev(k, 0, m)

\* the names from the top; level 0 is the image
TopOf(r) == [i \in 1..(r.up + 1 + r.dn) |-> IF i = r.up + 1 THEN <<66, 97, 115, 101>> ELSE Name(i + 2)]
Im == <<116, 46, 105, 109, 103>>
AllOf(r) == Append(TopOf(r), Im) \o [i \in 1..r.lv |-> Name(i)]
At0(r) == r.up + r.dn + 2
\* asked at node j of the way: what is above it
UpTo(j) == IF j % 3 = 0 THEN 1 ELSE 1 + ((j - 1) \div 2)
AskAt(r, j) == LET A == AllOf(r) IN
  [j |-> j, full |-> SubSeq(A, 1, j), root |-> SubSeq(A, 2, j), img |-> IF j <= At0(r) THEN <<>> ELSE SubSeq(A, At0(r) + 1, j),
   image |-> IF j <= At0(r) THEN 0 ELSE At0(r), base |-> IF j <= r.up + 1 THEN 0 ELSE r.up + 1,
   \* up to node q and down again to node t
   q |-> UpTo(j), t |-> j + ((Len(A) - j) \div 2),
   rel |-> LET q == UpTo(j) t == j + ((Len(A) - j) \div 2) IN [i \in 1..(j - q) |-> <<46, 46>>] \o SubSeq(A, q + 1, t)]
Asked(r) == LET n == Len(AllOf(r)) IN {j \in 1..n : n < 80 \/ j % 9 = 0 \/ j = n \/ j = At0(r) \/ j = At0(r) + 1 \/ j = r.up + 1 \/ j = r.up + 2}
Init == ph = 0
Next == /\ ph = 0 /\ ph' = 1
        /\ \A r \in Runs : \A m \in {r.lv \div 3} : \A s \in {SetToSeq(Asked(r))} :
             EmitCase([op |-> "deepnav", part |-> Part, bytes |-> Bytes(r.lv, m), all |-> AllOf(r), base |-> r.up + 1, image |-> At0(r), to |-> r.lv - m, asks |-> [i \in 1..Len(s) |-> AskAt(r, s[i])]])
=============================================================================
