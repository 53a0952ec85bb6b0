------------------------------ MODULE ImgKeys -------------------------------
(* .img files: which string key a reader ends up with, for every way of      *)
(* opening the file; also for damaged and cut files (C12).                   *)
EXTENDS WzFormat, KeyStreams, Emit, SequencesExt
VARIABLES im, done
X0 == [nf |-> "in0", vf |-> "in73", tf |-> "in73", lg |-> FALSE, alt |-> FALSE, pad |-> 0, sd |-> 1, w |-> 1, h |-> 1, fm |-> 1, sc |-> 0, pg |-> 0, u1 |-> 0, ver |-> 0]
Leaf(nm, k, v) == [n |-> nm, k |-> k, v |-> v, c |-> <<>>, x |-> X0]
Contents(i, sd) ==
  CASE i = 0 -> <<>>
    [] i = 1 -> <<Leaf(<<97>>, "int", <<sd>>)>>
    [] i = 2 -> <<Leaf(<<97>>, "str", <<104, 105, 48 + (sd % 10)>>), [Leaf(<<115>>, "prop", <<>>) EXCEPT !.c = <<Leaf(<<97>>, "short", <<sd % 100>>), Leaf(<<20013>>, "null", <<>>)>>]>>
    [] OTHER -> <<Leaf(<<54620, 44544>>, "str", [j \in 1..(sd % 140) |-> 44032 + j]), Leaf(<<118>>, "vec", <<sd, -sd>>)>>
Keys == <<"gms", "ems", "none">>
\* does the header name read "Property" under this key?
Fits(b, kid) == LET s == DecStr(kid, b, 1) IN s.ok /\ s.v = sProperty
KeyOf(b, hint) ==
  IF Len(b) = 0 THEN ""
  ELSE IF hint # "" THEN (IF Fits(b, hint) THEN hint ELSE "")
  ELSE IF b[1] # 115 THEN ""
  ELSE LET g == {i \in 1..3 : Fits(b, Keys[i])} IN IF g = {} THEN "" ELSE Keys[CHOOSE i \in g : \A j \in g : i <= j]
\* what opening must give: refused; the tree; or (a damaged file) anything but a crash
Way(b, hint) ==
  LET k == KeyOf(b, hint)
      r == DecImage(k, b, 0)
  IN [key |-> hint, want |-> IF k = "" THEN "refuse" ELSE IF r.ok THEN "tree" ELSE "error", tree |-> IF k # "" /\ r.ok THEN r.c ELSE <<>>]
Damage(b, how) ==
  CASE how = 0 -> <<>>
    [] how = 1 -> SubSeq(b, 1, RandomElement(0..(IF Len(b) < 14 THEN Len(b) ELSE 14)))
    [] how = 2 -> SubSeq(b, 1, RandomElement(0..Len(b)))
    [] how = 3 -> [b EXCEPT ![1] = RandomElement(0..255)]
    [] how = 4 -> [b EXCEPT ![RandomElement(1..12)] = RandomElement(0..255)]
    [] how = 5 -> RandBytes(RandomElement(0..30000), RandomElement(0..200))
    [] how = 6 -> [b EXCEPT ![2] = RandomElement(0..255)]
    [] OTHER -> b
Init == im = <<>> /\ done = FALSE
Make == /\ ~done
        /\ \E kid \in R({"none", "gms", "ems", "custom"}) : \E i \in R(0..3) : \E sd \in R(0..3000) : \E how \in R(0..14) :
           \E b0 \in {EncImage(kid, Contents(i, sd))} : \E b \in {Damage(b0, how)} :
             /\ (how > 6 => Fits(b, kid))
             /\ EmitCase([op |-> "imgkey", kid |-> kid, bytes |-> b, ways |-> {Way(b, h) : h \in {"", "none", "gms", "ems", "custom"}}])
        /\ done' = TRUE /\ UNCHANGED im
Next == Make
=============================================================================
