------------------------------ MODULE ImageBig ------------------------------
(* Images larger than 64 KB: one large member (a payload, a string or a      *)
(* nested list) first, then members whose names, values and lengths lie      *)
(* behind it, among them references back over it and to strings behind it.   *)
EXTENDS ImageLookup
CONSTANTS BigKinds, BigLens

Fm(a, b) == <<a, b, "in73">>
Leaf(k, nm, v, f) == FixPad([n |-> nm, k |-> k, v |-> v, c |-> <<>>, x |-> EncChoices(140, f)])
Holder(k, nm, c) == [n |-> nm, k |-> k, v |-> IF k \in {"canvas", "raw"} THEN <<1, 2, 3>> ELSE <<>>, c |-> c,
                     x |-> [EncChoices(140, Fm("in73", "in0")) EXCEPT !.ver = 1, !.alt = TRUE, !.pad = 0]]
Chars(n, w) == [j \in 1..n |-> (IF w THEN 12352 ELSE 33) + (j % 89)]
BigMember(k, n) ==
  CASE k = "list" -> [Holder("prop", <<98, 105, 103>>, [j \in 1..(n \div 100) |-> Leaf("short", NameOf(1000 + j), <<j>>, Fm("in0", "in0"))])
                        EXCEPT !.x.pad = 3]
    [] k = "text" -> Leaf("str", <<98, 105, 103>>, Chars(n, FALSE), Fm("in0", "in0"))
    [] k = "wide" -> Leaf("str", <<98, 105, 103>>, Chars(n \div 2, TRUE), Fm("in73", "in73"))
    [] k = "uol" -> Leaf("uol", <<98, 105, 103>>, Chars(n, FALSE), Fm("in0", "in0"))
    [] k = "pad" -> [Leaf("vec", <<98, 105, 103>>, <<70000, -5>>, Fm("in0", "in0")) EXCEPT !.x.pad = n]
    [] OTHER -> Leaf(k, <<98, 105, 103>>, RandBytes(n % 977, n), Fm("in0", "in0"))
After == <<Leaf("int", <<105>>, <<70001>>, Fm("in73", "in0")),
           Leaf("str", <<115>>, <<104, 101, 114, 101>>, Fm("in0", "in0")),
           Leaf("str", <<114>>, <<104, 101, 114, 101>>, Fm("in0", "ref1b")),           \* back to a string behind the large member
           Leaf("str", <<115, 50>>, <<101, 97, 114, 108, 121>>, Fm("in0", "ref1")),    \* back over the large member
           Leaf("double", <<100>>, <<24,45,68,84,251,33,9,64>>, Fm("in0", "in0")),
           Leaf("vec", <<118>>, <<-70000, 3>>, Fm("in0", "in0")),
           Leaf("sound", <<115, 110>>, RandBytes(5, 40), Fm("in0", "in0"))>>
Tree(k, n, how) ==
  LET first == Leaf("str", <<102>>, <<101, 97, 114, 108, 121>>, Fm("in0", "in0"))
      big == BigMember(k, n)
  IN CASE how = "flat" -> <<first, big>> \o After
       [] how = "inner" -> <<first, Holder("prop", <<104>>, <<big>> \o After), Leaf("int", <<122>>, <<9>>, Fm("ref1", "in0"))>>
       [] OTHER -> <<first, Holder("canvas", <<104>>, <<big>>), Holder("raw", <<104, 50>>, After),
                     Leaf("str", <<122>>, <<104, 101, 114, 101>>, Fm("in0", "ref1b"))>>
BigWay == {"flat", "inner", "held"}
InitBig ==
  /\ count = 0 /\ phase = "encoded"
  /\ \E k \in BigKinds : \E n \in BigLens : \E how \in BigWay : \E kid \in Kids : \E off \in Offs :
       \E c \in {TLCEval(Tree(k, n, how))} :
         /\ stack = <<[n |-> <<>>, k |-> "root", v |-> <<>>, c |-> c, x |-> <<>>]>>
         /\ img = TLCEval([kid |-> kid, off |-> off, b |-> RandBytes(off, off) \o EncImage(kid, c)])
\* the paths that cross or follow the large member
BigQueries(c) == LET ps == {p \in PathsOf(c, <<>>) : Len(p) < 3 \/ p[Len(p)] \in {NameOf(1000), NameOf(1001), NameOf(1100)}}
                 IN ps \cup {<<nope>>} \cup {Append(p, nope) : p \in {q \in ps : Len(q) = 1}}
EmitBig ==
  /\ phase = "encoded" /\ phase' = "done"
  /\ LET t == TLCEval(AbsSeq(Top.c))
     IN Serialize(ToJson([op |-> "direct", kid |-> img.kid, off |-> img.off, bytes |-> img.b,
                          paths |-> SetToSeq({[p |-> q, r |-> Lookup(t, q)] : q \in {p \in BigQueries(t) : IF Lookup(t, p) = <<>> THEN TRUE ELSE Len(Lookup(t, p)[1].v) < 1000 /\ Lookup(t, p)[1].c = <<>>}})]) \o "\n",
                  IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
  /\ UNCHANGED <<stack, count, img>>
=============================================================================
