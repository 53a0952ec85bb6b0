------------------------------- MODULE MsHist -------------------------------
(* Random histories of one program on a .ms pack: its table and its images   *)
(* are parsed, unparsed, walked and asked while the file under them is       *)
(* damaged and repaired.  An image is sealed until it is first parsed; from  *)
(* then on it lives on the bytes it had then.                                *)
EXTENDS MsGen, Heap
CONSTANTS OpMix, MaxSteps
VARIABLES fbytes, hp, mem, roots, seen, steps, bad, cnt, goal
MXX == [XM EXCEPT !.sd = 2]
MLeaf(nm, k, v) == [n |-> nm, k |-> k, v |-> v, c |-> <<>>, x |-> MXX]
MNode(nm, k, c) == [n |-> nm, k |-> k, v |-> <<>>, c |-> c, x |-> MXX]
MPic == [MLeaf(<<112>>, "canvas", <<120, 156, 99, 96, 0, 0, 0, 4, 0, 1>>) EXCEPT !.c = <<MLeaf(<<97>>, "vec", <<1, 2>>), MLeaf(<<95, 104>>, "str", <<104>>)>>]
MContent(i, s) ==
  CASE i = 0 -> <<>>
    [] i = 1 -> <<MLeaf(<<97>>, "int", <<s>>), MLeaf(<<98>>, "null", <<>>)>>
    [] i = 2 -> <<MNode(<<97>>, "prop", <<MLeaf(<<48>>, "short", <<s % 100>>), MNode(<<49>>, "prop", <<MLeaf(<<97>>, "str", <<104, 105>>)>>)>>), MLeaf(<<98>>, "str", <<54620>>)>>
    [] OTHER -> <<MPic, MNode(<<48>>, "convex", <<MLeaf(<<>>, "vec", <<1, 2>>), MLeaf(<<>>, "vec", <<s, 2>>)>>), MLeaf(<<99>>, "sound", RandBytes(s, 9))>>
MName(i) == CASE i = 0 -> <<97>> [] i = 1 -> <<98>> \o Img [] i = 2 -> <<48>> [] i = 3 -> <<95>> \o Img [] OTHER -> <<97, 98, 99, 100>> \o Img
NoPk == [gen |-> 1, f |-> <<97>>, salt |-> <<>>, sd |-> 0, es |-> <<>>]
HInit == ph = "start" /\ pk = NoPk /\ todo = 0 /\ fbytes = <<>> /\ hp = <<>> /\ mem = <<>> /\ roots = <<>> /\ seen = {} /\ steps = <<>> /\ bad = <<>> /\ cnt = 0 /\ goal = 0
HStart == /\ ph = "start" /\ ph' = "grow" /\ todo' = todo
          /\ \E g \in R({1, 2}) : \E fi \in R(0..6) : \E sd \in R(1..60000) : \E sl \in R({0, 1, 5, 16}) : \E m \in R(1..MaxEntries) :
             \E np \in {[gen |-> g, f |-> TLCEval(FName(fi, sd)), salt |-> TLCEval([i \in 1..sl |-> 33 + (Mix(sd + 3, i) % 94)]), sd |-> sd,
                      es |-> Place(TLCEval([i \in 1..m |-> LET c == MContent(Mix(sd, i) % 4, sd % 100) IN
                               [n |-> MName(i - 1), key |-> TLCEval(RandBytes(sd + i, 16)), at |-> (sd + i) % 3, data |-> TLCEval(EncImage("none", c)), tree |-> TLCEval(AbsSeq(c)), misc |-> TLCEval(RandBytes(sd + 12 + i, 20))]]),
                               Perm(m, sd), 0)]} : pk' = np
          /\ UNCHANGED <<fbytes, hp, mem, roots, seen, steps, bad, cnt, goal>>
\* the name of the pack's node is the file's, without its ending
HOpen == /\ ph = "grow" /\ ph' = "ops" /\ cnt' = 0 /\ goal' = RandomElement((MaxSteps \div 2)..MaxSteps)
         /\ \E x \in {PackBytes(pk)} : fbytes' = x
         /\ hp' = <<Mk(SubSeq(pk.f, 1, Len(pk.f) - 3), "msfile", <<>>, 0, 1)>> /\ mem' = <<>> /\ roots' = <<1>> /\ seen' = {1} /\ UNCHANGED <<pk, todo, steps, bad>>
\* ---- what the file holds now: bad = <<>>: as written; <<0, >>: no table; <<i, x>>: image i is x ----
Now(i) == IF bad # <<>> /\ bad[1] = i THEN bad[2] ELSE pk.es[i].data
TableGone == bad # <<>> /\ bad[1] = 0
\* the bytes an open image lives on
MemOf(m, id) == LET S == {j \in 1..Len(m) : m[j][1] = id} IN m[CHOOSE j \in S : TRUE][2]
\* [h, m, ok]
RECURSIVE MList(_, _, _)
MList(g, pid, i) == IF i > Len(pk.es) THEN g ELSE MList(Put(Append(g, Mk(pk.es[i].n, "msimage", <<>>, pid, i)), pid, Len(g) + 1), pid, i + 1)
MParse1(g, m, id) ==
  LET nd == g[id] IN
  CASE nd.k = "msfile" -> IF nd.p THEN [h |-> g, m |-> m, ok |-> TRUE]
                          ELSE IF TableGone THEN [h |-> g, m |-> m, ok |-> FALSE]
                          ELSE [h |-> MList([g EXCEPT ![id].p = TRUE], id, 1), m |-> m, ok |-> TRUE]
    [] nd.k = "msimage" -> LET x == Now(nd.src) r == DecImage("none", x, 0)
                           IN IF r.ok THEN [h |-> Grow1([g EXCEPT ![id].p = TRUE, ![id].k = "image"], id, r.c, 1), m |-> Append(m, <<id, x>>), ok |-> TRUE]
                              ELSE [h |-> g, m |-> m, ok |-> FALSE]
    [] nd.k = "image" -> IF nd.p THEN [h |-> g, m |-> m, ok |-> TRUE]
                         ELSE [h |-> Grow1([g EXCEPT ![id].p = TRUE], id, DecImage("none", MemOf(m, id), 0).c, 1), m |-> m, ok |-> TRUE]
    [] OTHER -> [h |-> g, m |-> m, ok |-> TRUE]
MUnparse1(g, id) == IF g[id].k \in {"msfile", "image"} THEN [g EXCEPT ![id].kids = <<>>, ![id].p = FALSE] ELSE g
RECURSIVE MAtParsed(_, _, _, _)
MAtParsed(g, m, id, p) ==
  IF p = <<>> THEN [h |-> g, m |-> m, id |-> id]
  ELSE LET r == MParse1(g, m, id) IN
    IF ~r.ok THEN [h |-> r.h, m |-> r.m, id |-> 0]
    ELSE LET c == At1(r.h, id, Head(p)) IN IF c = 0 THEN [h |-> r.h, m |-> r.m, id |-> 0] ELSE MAtParsed(r.h, r.m, c, Tail(p))
MForce(g, m, id, p) == LET c == At1(g, id, Head(p)) IN IF c = 0 THEN [h |-> g, m |-> m, id |-> 0] ELSE MAtParsed(g, m, c, Tail(p))
RECURSIVE MWalk1(_, _, _, _), MWalkKids(_, _, _, _, _, _)
MWalkKids(g, m, ids, i, force, acc) ==
  IF i > Len(ids) THEN [h |-> g, m |-> m, v |-> acc]
  ELSE LET r == MWalk1(g, m, ids[i], force) IN MWalkKids(r.h, r.m, ids, i + 1, force, acc \o r.v)
MWalk1(g, m, id, force) ==
  LET q == IF force THEN MParse1(g, m, id) ELSE [h |-> g, m |-> m, ok |-> TRUE]
      r == MWalkKids(q.h, q.m, q.h[id].kids, 1, force, <<[p |-> FullPath(q.h, id), c |-> Len(q.h[id].kids)]>>)
  IN [h |-> IF force /\ r.h[id].k = "image" THEN MUnparse1(r.h, id) ELSE r.h, m |-> r.m, v |-> r.v]
\* ---- steps ----
RECURSIVE MAll(_, _, _)
MAll(g, rs, i) == IF i > Len(rs) THEN {} ELSE Below(g, rs[i]) \cup MAll(g, rs, i + 1)
MKnown == seen \cup MAll(hp, roots, 1)
MStep(r, g, m) == /\ hp' = g /\ mem' = m /\ seen' = seen \cup MAll(g, roots, 1)
                  /\ steps' = Append(steps, r @@ [snap |-> [i \in 1..Len(roots) |-> Snap(g, roots[i])]])
                  /\ cnt' = cnt + 1 /\ UNCHANGED <<ph, pk, todo, fbytes, roots, goal, bad>>
MSay(r) == steps' = Append(steps, r) /\ cnt' = cnt + 1 /\ UNCHANGED <<ph, pk, todo, fbytes, hp, mem, roots, seen, goal, bad>>
MPref(S) == LET T == {i \in S : hp[i].k \in {"msfile", "msimage", "image"}} IN IF RandomElement(0..4) > 0 THEN RandomElement(T) ELSE RandomElement(S)
DoParse == \E id \in {MPref(MKnown)} : \E r \in {MParse1(hp, mem, id)} : MStep([op |-> "parse", id |-> id, ok |-> r.ok], r.h, r.m)
DoUnparse == \E id \in {MPref(MKnown)} : MStep([op |-> "unparse", id |-> id], MUnparse1(hp, id), mem)
RECURSIVE MDeep(_, _)
MDeep(c, l) == IF l = 0 \/ c = <<>> THEN <<>> ELSE LET x == c[RandomElement(1..Len(c))] IN <<x.n>> \o MDeep(x.c, l - 1)
DoForce == \E i \in R(1..Len(pk.es)) : \E l \in R(0..3) : \E z \in R(0..9) : \E p \in {<<pk.es[i].n>> \o MDeep(pk.es[i].tree, l) \o (IF z = 0 THEN <<<<122>>>> ELSE <<>>)} :
             \E r \in {MForce(hp, mem, 1, p)} : MStep([op |-> "force", id |-> 1, path |-> p, to |-> r.id], r.h, r.m)
DoWalk == \E id \in {IF RandomElement(0..1) = 0 THEN 1 ELSE MPref(MKnown)} : \E f \in R(BOOLEAN) : \E r \in {MWalk1(hp, mem, id, f)} :
             MStep([op |-> "walk", id |-> id, force |-> f, visits |-> r.v], r.h, r.m)
Diff(x, y) == TLCEval(SetToSeq({<<i - 1, y[i]>> : i \in {i \in 1..Len(x) : x[i] # y[i]}}))
\* the table with a length of its first name that cannot be
BadTable == IF pk.gen = 1 THEN [fbytes EXCEPT ![TabAt(pk) + 4] = @ ^^ 128] ELSE [fbytes EXCEPT ![TabAt(pk) + 4] = @ ^^ 64]
DoPoke == \E i \in R(0..Len(pk.es)) :
            IF i = 0 THEN /\ bad' = <<0, <<>>>> /\ \E y \in {BadTable} : fbytes' = y /\ steps' = Append(steps, [op |-> "pokes", at |-> Diff(fbytes, y)]) /\ cnt' = cnt + 1 /\ UNCHANGED <<ph, pk, todo, hp, mem, roots, seen, goal>>
            ELSE LET S == ImgSpots("none", pk.es[i].data, 0) IN
                 \E j \in R(1..Len(S)) : \E x \in {[pk.es[i].data EXCEPT ![S[j][1] + 1] = S[j][2]]} :
                    /\ bad' = <<i, x>> /\ \E y \in {PackBytes([pk EXCEPT !.es[i].data = x])} : fbytes' = y /\ steps' = Append(steps, [op |-> "pokes", at |-> Diff(fbytes, y)]) /\ cnt' = cnt + 1 /\ UNCHANGED <<ph, pk, todo, hp, mem, roots, seen, goal>>
DoMend == /\ bad' = <<>> /\ \E y \in {PackBytes(pk)} : fbytes' = y /\ steps' = Append(steps, [op |-> "pokes", at |-> Diff(fbytes, y)])
          /\ cnt' = cnt + 1 /\ UNCHANGED <<ph, pk, todo, hp, mem, roots, seen, goal>>
RECURSIVE MRPath(_, _)
MRPath(id, l) ==
  IF l = 0 THEN <<>>
  ELSE LET ks == IF id = 0 THEN <<>> ELSE hp[id].kids
           c == RandomElement(0..19)
       IN IF c = 0 THEN <<<<122>>>> \o MRPath(0, l - 1)
          ELSE IF c < 6 THEN <<DotDot>> \o MRPath(IF id = 0 THEN 0 ELSE hp[id].par, l - 1)
          ELSE IF ks = <<>> THEN <<MName(c % 4)>> \o MRPath(0, l - 1)
          ELSE LET k == ks[RandomElement(1..Len(ks))] IN <<hp[k].n>> \o MRPath(k, l - 1)
MQ(id, m, p) == [m |-> m, p |-> p, rest |-> <<>>,
                 to |-> CASE m = "at" -> At1(hp, id, p[1]) [] m = "path" -> AtPath(hp, id, p) [] m = "rel" -> AtRel(hp, id, <<p[1]>>) [] OTHER -> AtRel(hp, id, p)]
DoAsk == \E id \in R(MKnown) :
         MSay([op |-> "ask", id |-> id, full |-> FullPath(hp, id), root |-> RootPath(hp, id), img |-> ImagePath(hp, id), image |-> ImageOf(hp, id), base |-> BaseOf(hp, id), top |-> Chain(hp, id)[1],
              qs |-> [i \in 1..8 |-> LET m == <<"at", "path", "rel", "prel">>[(i % 4) + 1] e == MRPath(id, RandomElement(1..4)) IN MQ(id, m, e)]])
HDo(o) == CASE o = "parse" -> DoParse [] o = "unparse" -> DoUnparse [] o = "force" -> DoForce [] o = "walk" -> DoWalk
            [] o = "poke" -> IF bad = <<>> THEN DoPoke ELSE DoMend [] o = "ask" -> DoAsk
HOp == ph = "ops" /\ cnt < goal /\ \E i \in R(1..Len(OpMix)) : HDo(OpMix[i])
HEnd == /\ ph = "ops" /\ cnt >= goal /\ ph' = "done"
        /\ EmitCase([op |-> "mstree", f |-> pk.f, bytes |-> PackBytes(pk), steps |-> steps])
        /\ UNCHANGED <<pk, todo, fbytes, hp, mem, roots, seen, steps, bad, cnt, goal>>
HNext == HStart \/ HOpen \/ HOp \/ HEnd
\* ---- facts of the specification itself ----
HLive == MAll(hp, roots, 1)
HParents == ph = "ops" => \A id \in HLive : \A j \in 1..Len(hp[id].kids) : hp[hp[id].kids[j]].par = id
HPathBack == ph = "ops" => \A id \in HLive : AtPath(hp, 1, RootPath(hp, id)) = id
HMixHist == <<"parse", "parse", "parse", "unparse", "force", "force", "poke", "poke", "ask">>
HMixWalk == <<"walk", "walk", "parse", "force", "poke", "unparse">>
HMixNav == <<"parse", "force", "ask", "ask", "ask", "unparse">>
=============================================================================
