------------------------------- MODULE Damage -------------------------------
(* Images cut short at every place or with a byte changed, and what a reader *)
(* may make of them: an error, or exactly the properties that are there.     *)
EXTENDS ImageGen
CONSTANTS Few, Vals(_)
VARIABLE pos
R(S) == {RandomElement(S)}
Shard == atoi(IOEnv.SHARD)
Yes == TRUE
X1 == [nf |-> "in0", vf |-> "in73", tf |-> "in73", lg |-> FALSE, alt |-> TRUE, pad |-> 0, sd |-> 21, w |-> 3, h |-> 2, fm |-> 2, sc |-> 0, pg |-> 0, u1 |-> 1, ver |-> 1]
Q(nm, k, v, kids) == [n |-> nm, k |-> k, v |-> v, c |-> kids, x |-> X1]
LgX(nd) == [nd EXCEPT !.x.lg = TRUE]
RefX(nd) == [nd EXCEPT !.x.nf = "ref1", !.x.vf = "ref1b", !.x.tf = "ref1b"]
na == <<97>>
nb == <<98>>
\* one small image of each kind, and small mixtures
Small == <<
  <<Q(na, "int", <<5>>, <<>>), LgX(Q(nb, "int", <<70000>>, <<>>))>>,
  <<LgX(Q(na, "short", <<7>>, <<>>)), LgX(Q(nb, "long", LE64(5), <<>>))>>,
  <<Q(na, "float", <<0, 0, 128, 63>>, <<>>), Q(nb, "fbyte", <<3>>, <<>>), Q(<<99>>, "double", LE64(9), <<>>)>>,
  <<Q(na, "str", <<104, 105>>, <<>>), RefX(Q(nb, "str", na, <<>>)), [Q(<<20013>>, "str", <<120>>, <<>>) EXCEPT !.x.vf = "wide"], Q(<<99>>, "null", <<>>, <<>>)>>,
  <<Q(na, "prop", <<>>, <<Q(na, "int", <<1>>, <<>>), RefX(Q(nb, "prop", <<>>, <<>>))>>), Q(nb, "null", <<>>, <<>>)>>,
  <<Q(na, "canvas", RandBytes(3, 9), <<Q(nb, "vec", <<1, -2>>, <<>>)>>), Q(nb, "null", <<>>, <<>>)>>,
  <<Q(na, "convex", <<>>, <<Q(na, "vec", <<1, 2>>, <<>>), Q(nb, "vec", <<-200, 4>>, <<>>)>>), Q(nb, "null", <<>>, <<>>)>>,
  <<LgX(Q(na, "sound", RandBytes(4, 6), <<>>)), Q(nb, "null", <<>>, <<>>)>>,
  <<Q(na, "uol", <<98>>, <<>>), Q(nb, "int", <<3>>, <<>>)>>,
  <<Q(na, "raw", RandBytes(5, 5), <<Q(nb, "int", <<3>>, <<>>)>>), Q(nb, "null", <<>>, <<>>)>>,
  <<Q(na, "video", RandBytes(6, 5), <<>>), [Q(<<99>>, "raw", RandBytes(6, 3), <<>>) EXCEPT !.x.ver = 0]>>,
  <<Q(na, "unk", RandBytes(7, 5), <<>>), [Q(nb, "str", <<104, 105>>, <<>>) EXCEPT !.x.vf = "long", !.x.nf = "long"], [Q(<<99>>, "str", <<104, 20013>>, <<>>) EXCEPT !.x.vf = "long"]>> >>
\* what a reader may show: 0 an error only, 1 also the tree as written, 2 also this tree
Want(kid, b, off, tree) ==
  LET r == DecImage(kid, b, off)
  IN IF ~r.ok THEN <<0>> ELSE IF r.c = tree THEN <<1>> ELSE <<2, r.c>>
Emit1(kid, off, b, tree, cuts, muts) ==
  Serialize(ToJson([op |-> "dmgimg", kid |-> kid, off |-> off, bytes |-> b, tree |-> tree,
                    cuts |-> SetToSeq({<<n, Want(kid, SubSeq(b, 1, n), off, tree)>> : n \in cuts}),
                    muts |-> SetToSeq({<<m[1], m[2], Want(kid, [b EXCEPT ![m[1] + 1] = m[2]], off, tree)>> : m \in muts})]) \o "\n",
            IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Every(b) == 0..255
Edge(b) == {0, 1, 2, 9, 27, 115, 126, 127, 128, 129, 255, (b + 1) % 256, (b + 255) % 256, b ^^ 128, b ^^ 1, b ^^ 64, RandomElement(0..255)}
\* exhaustive: every place of every small image
InitExh == /\ \E i \in {j \in 1..Len(Small) : j % Few = Shard % Few} : \E kid \in Kids : \E off \in Offs :
              img = [kid |-> kid, off |-> off, b |-> RandBytes(off, off) \o EncImage(kid, Small[i])] /\ stack = <<Small[i]>>
           /\ count = 0 /\ phase = "exh" /\ pos = 0
Place == /\ phase = "exh" /\ pos < Len(img.b) /\ pos' = pos + 1
         /\ Emit1(img.kid, img.off, img.b, AbsSeq(stack[1]), IF pos = 0 THEN 0..(Len(img.b) - 1) ELSE {}, {<<pos, v>> : v \in Vals(img.b[pos + 1])})
         /\ UNCHANGED <<stack, count, phase, img>>
NextExh == Place
\* larger random images, damaged at random places
Hurt == /\ phase = "encoded" /\ phase' = "done" /\ UNCHANGED <<stack, count, img, pos>>
        /\ \E tree \in {AbsSeq(Top.c)} : \E L \in {Len(img.b)} :
           Emit1(img.kid, img.off, img.b, tree, {RandomElement(0..(L - 1)) : i \in 1..Few},
                 {LET p == RandomElement(0..(L - 1)) IN <<p, RandomElement(Vals(img.b[p + 1]))>> : i \in 1..(3 * Few)})
InitSim == Init /\ pos = 0
NextSim == ((AddLeaf \/ Open \/ Close \/ Finish) /\ UNCHANGED pos) \/ Hurt
\* a reader shows nothing that was not written when the end is missing (texts apart)
CutTree(got, orig) == Len(got) = Len(orig) /\ \A i \in 1..Len(got) : got[i] = orig[i] \/ got[i].v = NoText \/ i = Len(got)
CutSafe == (phase = "exh" /\ pos = 1) => \A n \in 0..(Len(img.b) - 1) : LET r == DecImage(img.kid, SubSeq(img.b, 1, n), img.off) IN r.ok => CutTree(r.c, AbsSeq(stack[1]))
=============================================================================
