------------------------------ MODULE DamageMs ------------------------------
(* Packs cut short or with bytes changed: the images the damage is not inside *)
(* of stay readable, and nothing is shown that is not in the bytes.           *)
EXTENDS MsGen
\* where the data of the images begins, and where the image i is
DataAt(b, p) == LET S == {p.es[i].at + Blocks(p.es[i].data) : i \in 1..Len(p.es)} n == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x IN Len(b) - 1024 * n
From(b, p, i) == DataAt(b, p) + 1024 * p.es[i].at
Upto(b, p, i) == From(b, p, i) + 1024 * Blocks(p.es[i].data)
Low8(u) == \A j \in 1..Len(u) : u[j] \in 1..127
\* what the first generation's reader may list: [ok, es: <<[n, b]>>], images of which nothing is known left out
May(b, p) ==
  IF p.gen = 2 THEN [ok |-> TRUE, known |-> FALSE, n |-> 0, es |-> <<>>]
  ELSE LET r == ReadPack1(b, p.f)
       IN [ok |-> r.ok, known |-> TRUE, n |-> Len(r.es), es |-> IF r.ok THEN SelectSeq([i \in 1..Len(r.es) |-> [n |-> r.es[i].n, b |-> r.es[i].data]], LAMBDA e : Low8(e.n)) ELSE <<>>]
\* the images that have to be there
Must(b, p, lo, hi) == IF lo >= DataAt(b, p) THEN {i \in 1..Len(p.es) : hi <= From(b, p, i) \/ lo >= Upto(b, p, i)} ELSE {}
Spot(b, p) == LET w == RandomElement(0..9) d == DataAt(b, p) IN
  IF w < 4 /\ d < Len(b) THEN RandomElement(d..(Len(b) - 1)) ELSE IF w < 8 THEN RandomElement(0..(d - 1)) ELSE RandomElement(0..(IF d > 300 THEN 300 ELSE d - 1))
Value(v) == LET w == RandomElement(0..3) IN IF w = 0 THEN RandomElement({0, 1, 2, 127, 128, 255}) ELSE IF w = 1 THEN v ^^ 128 ELSE IF w = 2 THEN v ^^ 1 ELSE RandomElement(0..255)
Hit(b, p, q, v) == LET m == [b EXCEPT ![q + 1] = v] IN <<q, v, q >= DataAt(b, p), SetToSeq(Must(b, p, q, q + 1)), IF q >= DataAt(b, p) THEN [ok |-> TRUE, known |-> FALSE, n |-> 0, es |-> <<>>] ELSE May(m, p)>>
Finish2 == /\ ph = "laid" /\ ph' = "start" /\ UNCHANGED <<pk, todo>>
           /\ \E b \in {PackBytes(pk)} :
              \E ms \in {{LET q == Spot(b, pk) IN <<q, Value(b[q + 1])>> : i \in 1..10}} :
              \E cs \in {{LET w == RandomElement(0..2) IN IF w = 0 THEN RandomElement(0..(Len(b) - 1)) ELSE IF w = 1 THEN RandomElement(0..DataAt(b, pk)) ELSE IF DataAt(b, pk) < Len(b) THEN RandomElement(DataAt(b, pk)..(Len(b) - 1)) ELSE 0 : i \in 1..7}} :
               EmitCase([op |-> "dmgms", gen |-> pk.gen, f |-> pk.f, bytes |-> b, es |-> [i \in 1..Len(pk.es) |-> [n |-> pk.es[i].n, b |-> pk.es[i].data]],
                         cuts |-> SetToSeq({<<k, k >= DataAt(b, pk), SetToSeq(Must(b, pk, k, Len(b))), IF k >= DataAt(b, pk) THEN [ok |-> TRUE, known |-> FALSE, n |-> 0, es |-> <<>>] ELSE May(SubSeq(b, 1, k), pk)>> : k \in cs}),
                         muts |-> SetToSeq({Hit(b, pk, m[1], m[2]) : m \in ms})])
NextDmg == Start \/ Grow \/ Lay \/ Finish2
=============================================================================
