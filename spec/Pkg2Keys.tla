------------------------------ MODULE Pkg2Keys ------------------------------
(* Version keys and the stored hashes they give: the generator of each        *)
(* profile must enumerate the key a header was made with (Brute: also the     *)
(* ones that are searched for among all 32-bit words).                        *)
EXTENDS Pkg2, KeyStreams, Emit
CONSTANTS Brute
VARIABLES n
RandW(sd) == RandBytes(sd, 4)
Word(i, sd) == CASE i = 0 -> <<0, 0, 0, 0>> [] i = 1 -> <<255, 255, 255, 255>> [] i = 2 -> <<0, 0, 0, 128>> [] i = 3 -> <<1, 0, 0, 0>>
                 [] i = 4 -> <<0, 0>> \o LE16(sd) [] i = 5 -> LE16(sd) \o <<0, 0>> [] i = 6 -> <<(sd % 8) * 32>> \o SubSeq(RandW(sd), 2, 4)
                 [] i = 7 -> <<(sd % 16) * 16>> \o SubSeq(RandW(sd), 2, 4) [] i = 8 -> <<255 - (sd % 16), 255, 255, 255>>
                 [] i = 9 -> <<31>> \o SubSeq(RandW(sd), 2, 4) [] i = 10 -> <<179, 195, 212, 229>>      \* VKey + t = all ones but the lowest
                 [] i = 11 -> <<sd % 256, 0, 0, 0>> [] OTHER -> RandW(sd)
Bit(k) == [i \in 1..4 |-> IF (k \div 8) + 1 = i THEN 2 ^ (k % 8) ELSE 0]
Case(g, h1, t, k) ==
  LET h2 == Hash2(g, h1, t)
      t2 == [i \in 1..Len(t) |-> t[i] ^^ (IF i <= 4 THEN Bit(k)[i] ELSE 0)]
  IN [op |-> "vgen", gen |-> g, h1 |-> h1, h2 |-> h2, t |-> t, t2 |-> t2, fits2 |-> Produces(g, h1, h2, t2), all |-> Brute \/ g \notin {4, 5}]
Init == n = 0
\* the two ends of the range are among the searched ones
Searched == <<[g |-> 4, i |-> 1], [g |-> 5, i |-> 12], [g |-> 4, i |-> 0], [g |-> 5, i |-> 1], [g |-> 4, i |-> 12], [g |-> 5, i |-> 8]>>
Next ==
  /\ n < 1 /\ n' = n + 1
  /\ \E g \in R(1..6) : \E i1 \in R(0..22) : \E i2 \in R(0..22) : \E s1 \in R(1..65535) : \E s2 \in R(1..65535) : \E s3 \in R(1..65535) : \E k \in R(0..31) :
     EmitCase(Case(g, Word(i1, s1) \o (IF g = 6 THEN RandW(s3) ELSE <<>>), Word(i2, s2) \o (IF g = 6 THEN Word(i1, s3) ELSE <<>>), k))
\* searched ones: one per behaviour, by number
InitB == n \in 1..6
NextB == /\ n > 0 /\ n' = -n
         /\ \E s1 \in R(1..65535) : \E k \in R(0..31) :
            EmitCase(Case(Searched[n].g, Word(IF n = 3 THEN 1 ELSE 12, s1 * 7), Word(Searched[n].i, s1), k))
InitFew == n \in 1..2
=============================================================================
