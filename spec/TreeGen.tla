------------------------------ MODULE TreeGen -------------------------------
(* Random histories of one program on a tree: parse, unparse, force paths,   *)
(* walk, add, merge, damage and repair of the archive, and questions.        *)
EXTENDS Tree, KeyStreams, Emit, SequencesExt
CONSTANTS OpMix, MaxSteps, MaxEntries, MaxDirs
VARIABLES ph, n, goal
Nm(i) == CASE i = 0 -> <<97>> [] i = 1 -> <<98>> [] i = 2 -> <<99, 46, 105, 109, 103>> [] i = 3 -> <<48>> [] i = 4 -> <<49>> [] i = 5 -> <<54620, 44544>>
           [] i = 6 -> <<100, 46, 105, 109, 103>> [] i = 7 -> Base [] i = 8 -> <<95, 105, 110, 108, 105, 110, 107>> [] i = 9 -> <<77, 97, 112>>
           [] i = 10 -> Base \o <<95, 48, 48, 48>> [] OTHER -> <<98, 97, 115, 101>>
NameFor(k) == IF k = "file" THEN {2, 5, 7, 9, 10, 11} ELSE 0..9
X0 == [nf |-> "in0", vf |-> "in73", tf |-> "in73", lg |-> FALSE, alt |-> TRUE, pad |-> 0, sd |-> 1, w |-> 1, h |-> 1, fm |-> 1, sc |-> 0, pg |-> 0, u1 |-> 0, ver |-> 1]
Leaf(nm, k, v) == [n |-> nm, k |-> k, v |-> v, c |-> <<>>, x |-> X0]
Node(nm, k, c) == [n |-> nm, k |-> k, v |-> <<>>, c |-> c, x |-> X0]
Pic == [Leaf(<<112>>, "canvas", <<120, 156, 99, 96, 0, 0, 0, 4, 0, 1>>) EXCEPT !.c = <<Leaf(<<97>>, "vec", <<1, 2>>), Leaf(<<95, 104>>, "str", <<104>>)>>]
RECURSIVE Downward(_, _)
Downward(k, s) == IF k = 0 THEN <<Leaf(<<97>>, "int", <<s>>)>> ELSE <<Node(Nm((k * k) % 5), "prop", Downward(k - 1, s))>>
Content(i, s) ==
  CASE i = 0 -> <<>>
    [] i = 1 -> <<Leaf(<<97>>, "int", <<s>>), Leaf(<<98>>, "null", <<>>)>>
    [] i = 2 -> <<Node(<<97>>, "prop", <<Leaf(<<48>>, "short", <<s % 100>>), Node(<<49>>, "prop", <<Leaf(<<97>>, "str", <<104, 105>>)>>)>>), Leaf(<<98>>, "str", <<54620>>)>>
    [] i = 3 -> <<Pic, Node(<<48>>, "convex", <<Leaf(<<>>, "vec", <<1, 2>>), Leaf(<<>>, "vec", <<s, 2>>)>>)>>
    \* a long way down
    [] i = 5 -> Downward(IF s % 3 = 0 THEN 44 ELSE 9 + (s % 20), s)
    [] OTHER -> <<Node(<<48>>, "prop", <<Pic, Leaf(<<97>>, "double", LE64(s))>>), Leaf(<<97>>, "long", LE64(s)), Leaf(<<49>>, "sound", RandBytes(s, 9))>>

\* ---- the archive first ----
Init == /\ ph = "start" /\ n = 0 /\ goal = 0 /\ a = [kid |-> "none"] /\ lay = <<>> /\ b = <<>> /\ h = <<>> /\ roots = <<>> /\ seen = {} /\ steps = <<>> /\ bad = <<>>
Start == /\ ph = "start"
         /\ \E kid \in R({"none", "gms", "ems"}) : \E fs \in R({16, 60}) : \E g \in R(1..MaxEntries) : \E v \in R({83, 95, 176}) :
              /\ a' = [kid |-> kid, enc |-> TRUE, fstart |-> fs, ver |-> v, hash |-> VerHash(v), rev |-> FALSE, dirs |-> <<<<>>>>, imgs |-> <<>>]
              /\ goal' = g
         /\ ph' = "grow" /\ n' = 0 /\ UNCHANGED <<lay, b, h, roots, seen, steps, bad>>
Entry == /\ ph = "grow" /\ n < goal
         /\ \E t \in R(IF Len(a.dirs) < MaxDirs THEN {"img", "img", "dir", "junk"} ELSE {"img", "junk"}) : \E i \in R(0..6) : \E d \in R(1..Len(a.dirs)) : \E ci \in R(0..4) : \E s \in R(0..200) :
              a' = IF Nm(i) \in {a.dirs[d][j].n : j \in 1..Len(a.dirs[d])} /\ t # "junk" THEN a
                   ELSE [a EXCEPT !.dirs = [@ EXCEPT ![d] = Append(@, [n |-> Nm(i), t |-> t, at |-> IF t = "dir" THEN Len(a.dirs) + 1 ELSE Len(a.imgs) + 1, ck |-> 7, lg |-> FALSE, rf |-> s % 5 = 0, wide |-> FALSE])] \o (IF t = "dir" THEN <<<<>>>> ELSE <<>>),
                                  !.imgs = IF t = "img" THEN Append(@, [b |-> EncImage(a.kid, Content(IF s > 194 THEN 5 ELSE ci, s)), tree |-> AbsSeq(Content(IF s > 194 THEN 5 ELSE ci, s))]) ELSE @]
         /\ n' = n + 1 /\ UNCHANGED <<ph, goal, lay, b, h, roots, seen, steps, bad>>
Open == /\ ph = "grow" /\ n >= goal
        /\ \E L \in {Layout(a)} : \E x \in {Archive(a, L)} : \E nm \in R({Base, <<116>>}) :
             /\ lay' = L /\ b' = x
             /\ h' = <<Mk(nm, "file", <<>>, 0, 1)>>
        /\ roots' = <<1>> /\ seen' = {1} /\ ph' = "ops" /\ n' = 0 /\ goal' = RandomElement((MaxSteps \div 2)..MaxSteps)
        /\ UNCHANGED <<a, steps, bad>>

\* ---- one step: the operation, what it returns, and the trees afterwards ----
RECURSIVE AllBelow(_, _, _)
AllBelow(g, rs, i) == IF i > Len(rs) THEN {} ELSE Below(g, rs[i]) \cup AllBelow(g, rs, i + 1)
Live == AllBelow(h, roots, 1)
Known == seen \cup Live
Step(r, g, rs) ==
  /\ h' = g /\ roots' = rs /\ seen' = seen \cup AllBelow(g, rs, 1)
  /\ steps' = Append(steps, r @@ [snap |-> [i \in 1..Len(rs) |-> Snap(g, rs[i])]])
  /\ n' = n + 1 /\ UNCHANGED <<ph, goal, a, lay>>
Say(r) == /\ steps' = Append(steps, r) /\ n' = n + 1 /\ UNCHANGED <<ph, goal, a, lay, b, h, roots, seen, bad>>
Kinds3 == {"file", "dir", "image"}
Pref(S) == LET T == {i \in S : h[i].k \in Kinds3} IN IF T # {} /\ RandomElement(0..4) > 0 THEN RandomElement(T) ELSE RandomElement(S)
Parse == \E id \in {Pref(Known)} : \E r \in {Parse1(h, id)} : Step([op |-> "parse", id |-> id, ok |-> r.ok], r.h, roots) /\ UNCHANGED <<b, bad>>
Unparse == \E id \in {Pref(Known)} : Step([op |-> "unparse", id |-> id], Unparse1(h, id), roots) /\ UNCHANGED <<b, bad>>
RECURSIVE RPath(_, _, _)
RPath(id, len, rel) ==
  IF len = 0 THEN <<>>
  ELSE LET ks == IF id = 0 THEN <<>> ELSE h[id].kids
           c == RandomElement(0..19)
       IN IF c = 0 THEN <<<<>>>> \o RPath(id, len - 1, rel)
          ELSE IF c = 1 THEN <<<<122>>>> \o RPath(0, len - 1, rel)
          ELSE IF c = 2 \/ (rel /\ c < 9) THEN <<DotDot>> \o RPath(IF id = 0 THEN 0 ELSE h[id].par, len - 1, rel)
          ELSE IF ks = <<>> THEN <<Nm(c % 7)>> \o RPath(0, len - 1, rel)
          ELSE LET k == ks[RandomElement(1..Len(ks))] IN <<h[k].n>> \o RPath(k, len - 1, rel)
\* a path that may lead into what is not parsed yet: names of the archive
RECURSIVE Deep(_, _), DeepP(_, _)
DeepP(c, len) == IF len = 0 \/ c = <<>> THEN <<>> ELSE LET x == c[RandomElement(1..Len(c))] IN <<x.n>> \o DeepP(x.c, len - 1)
Deep(d, len) ==
  LET es == SelectSeq(a.dirs[d], LAMBDA e : e.t # "junk") IN
  IF len = 0 \/ es = <<>> THEN <<>>
  ELSE LET e == es[RandomElement(1..Len(es))] IN <<e.n>> \o (IF e.t = "dir" THEN Deep(e.at, len - 1) ELSE DeepP(a.imgs[e.at].tree, len - 1))
Force == \E id \in {IF RandomElement(0..2) > 0 THEN 1 ELSE Pref(Known)} : \E l \in R((1..5) \cup {50}) :
         \E p0 \in {IF id = 1 /\ RandomElement(0..4) > 0 THEN Deep(1, l) ELSE RPath(id, l, FALSE)} :
         \E p \in {IF p0 = <<>> THEN <<<<97>>>> ELSE IF RandomElement(0..9) = 0 THEN Append(p0, <<122>>) ELSE p0} : \E r \in {AtPathParsed(h, id, p)} :
           Step([op |-> "force", id |-> id, path |-> p, to |-> r.id], r.h, roots) /\ UNCHANGED <<b, bad>>
Walk == \E id \in {IF RandomElement(0..1) = 0 THEN 1 ELSE Pref(Known)} : \E f \in R(BOOLEAN) : \E r \in {Walk1(h, id, f)} :
           Step([op |-> "walk", id |-> id, force |-> f, visits |-> r.v], r.h, roots) /\ UNCHANGED <<b, bad>>
Make(k) == CASE k = "int" -> [Mk(<<>>, "int", <<7>>, 0, 0) EXCEPT !.p = FALSE] [] k = "prop" -> Mk(<<>>, "prop", <<>>, 0, 0)
             [] k = "str" -> Mk(<<>>, "str", <<104>>, 0, 0) [] OTHER -> Mk(<<>>, k, <<>>, 0, 0)
MadeKinds == {"int", "prop", "prop", "str", "dir", "dir", "image", "file"}
NewRoot == \E k \in R(MadeKinds) : \E i \in R(NameFor(k)) :
           Step([op |-> "new", id |-> Len(h) + 1, par |-> 0, kind |-> k, name |-> Nm(i)], Append(h, [Make(k) EXCEPT !.n = Nm(i)]), Append(roots, Len(h) + 1)) /\ UNCHANGED <<b, bad>>
Add == \E pid \in {IF RandomElement(0..3) > 0 THEN Pref(Live) ELSE RandomElement(Live)} : \E k \in R(MadeKinds) : \E i \in R(NameFor(k)) :
           Step([op |-> "new", id |-> Len(h) + 1, par |-> pid, kind |-> k, name |-> Nm(i)],
                Put(Append(h, [Make(k) EXCEPT !.n = Nm(i), !.par = pid]), pid, Len(h) + 1), roots) /\ UNCHANGED <<b, bad>>
\* a root moves below another node (its parent link is only set when asked for, by resolve_childs_parent)
Attach == /\ Len(roots) > 1
          /\ \E j \in R(2..Len(roots)) : \E pid \in R(AllBelow(h, SelectSeq(roots, LAMBDA x : x # roots[j]), 1)) :
             \E set \in R({TRUE, TRUE, FALSE}) :
               LET g == Put(h, pid, roots[j]) IN
               Step([op |-> "attach", id |-> roots[j], par |-> pid, set |-> set], IF set THEN Adopt(g, pid) ELSE g, SelectSeq(roots, LAMBDA x : x # roots[j])) /\ UNCHANGED <<b, bad>>
\* a node is taken out of its place and put somewhere else, with its parent link set then
Take(g, id) == [g EXCEPT ![g[id].par].kids = SelectSeq(@, LAMBDA x : x # id)]
Transplant == \E id \in R(Live) : \E pid \in R(Live) :
           IF h[id].par = 0 \/ pid \in Below(h, id) \/ At1(h, h[id].par, h[id].n) # id THEN Say([op |-> "nop"])
           ELSE Step([op |-> "move", id |-> id, from |-> h[id].par, par |-> pid], Adopt(Put(Take(h, id), pid, id), pid), roots) /\ UNCHANGED <<b, bad>>
Merge == \E x \in R(Live) : \E y \in R(Live) :
           IF Below(h, x) \cap Below(h, y) = {}
           THEN Step([op |-> "merge", from |-> x, to |-> y], Move1(h, x, y), roots) /\ UNCHANGED <<b, bad>>
           ELSE Say([op |-> "nop"])
Poke == /\ bad = <<>>
        /\ \E w \in R(0..3) : \E d \in R(1..Len(a.dirs)) : \E i \in R(IF a.imgs = <<>> THEN {0} ELSE 1..Len(a.imgs)) :
           LET S == IF w = 0 \/ i = 0 THEN <<<<lay.dpos[d], 255>>>> \o (IF a.dirs[d] = <<>> THEN <<>> ELSE <<<<lay.dpos[d] + Len(EncInt(Len(a.dirs[d]), FALSE)), 9>>>>)
                    ELSE ImgSpots(a.kid, b, lay.ipos[i])
           IN \E j \in R(1..Len(S)) : LET at == S[j][1] val == S[j][2] IN
                   /\ b' = [b EXCEPT ![at + 1] = val] /\ bad' = <<at, b[at + 1]>>
                   /\ steps' = Append(steps, [op |-> "poke", at |-> at, val |-> val]) /\ n' = n + 1
                   /\ UNCHANGED <<ph, goal, a, lay, h, roots, seen>>
Mend == /\ bad # <<>>
        /\ b' = [b EXCEPT ![bad[1] + 1] = bad[2]] /\ bad' = <<>>
        /\ steps' = Append(steps, [op |-> "poke", at |-> bad[1], val |-> bad[2]]) /\ n' = n + 1
        /\ UNCHANGED <<ph, goal, a, lay, h, roots, seen>>
Q(id, m, p) == [m |-> m, p |-> p,
                to |-> CASE m = "at" -> At1(h, id, p[1]) [] m = "path" -> AtPath(h, id, p) [] m = "rel" -> AtRel(h, id, <<p[1]>>) [] m = "prel" -> AtRel(h, id, p) [] m = "img" -> ImgOnPath(h, id, p).id,
                rest |-> IF m = "img" THEN ImgOnPath(h, id, p).rest ELSE <<>>]
Ask == \E id \in R(Known) :
         Say([op |-> "ask", id |-> id, full |-> FullPath(h, id), root |-> RootPath(h, id), img |-> ImagePath(h, id), image |-> ImageOf(h, id), base |-> BaseOf(h, id),
              top |-> Chain(h, id)[1],
              qs |-> [i \in 1..12 |-> LET m == <<"at", "path", "rel", "prel", "img", "path", "prel", "img", "path", "path", "prel", "prel">>[i]
                                          e == RPath(id, RandomElement(1..4), m \in {"prel", "rel"})
                                      IN Q(id, m, e)]])
AskTop == Say([op |-> "ask", id |-> 1, full |-> FullPath(h, 1), root |-> RootPath(h, 1), img |-> ImagePath(h, 1), image |-> ImageOf(h, 1), base |-> BaseOf(h, 1), top |-> 1,
              qs |-> [i \in 1..8 |-> LET m == <<"path", "img">>[(i % 2) + 1] l == RandomElement((1..5) \cup {50}) d == Deep(1, l) e == IF d = <<>> THEN <<<<97>>>> ELSE d IN Q(1, m, e)]])
Do(o) == CASE o = "parse" -> Parse [] o = "unparse" -> Unparse [] o = "force" -> Force [] o = "walk" -> Walk [] o = "new" -> NewRoot [] o = "add" -> Add
           [] o = "attach" -> IF Len(roots) > 1 THEN Attach ELSE NewRoot [] o = "move" -> Transplant [] o = "merge" -> Merge [] o = "poke" -> IF bad = <<>> THEN Poke ELSE Mend
           [] o = "ask" -> Ask [] o = "asktop" -> AskTop
Op == /\ ph = "ops" /\ n < goal /\ \E i \in R(1..Len(OpMix)) : Do(OpMix[i])
End == /\ ph = "ops" /\ n >= goal
       /\ EmitCase([op |-> "tree", kid |-> a.kid, ver |-> IF a.imgs # <<>> /\ n % 2 = 0 THEN 0 ELSE a.ver, name |-> h[1].n, bytes |-> Archive(a, lay), steps |-> steps])
       /\ ph' = "done" /\ UNCHANGED <<n, goal, a, lay, b, h, roots, seen, steps, bad>>
Next == Start \/ Entry \/ Open \/ Op \/ End

\* ---- facts of the specification itself ----
Handled == ph = "ops"
ParentsAgree == Handled => \A id \in Live : \A j \in 1..Len(h[id].kids) : h[h[id].kids[j]].par \in {0, id}
NoCycle == Handled => \A id \in Live : id \notin Flat2(h, h[id].kids, 1)
PathBack == Handled => \A id \in Live : LET c == Chain(h, id)[1] IN c \in Live => AtPath(h, c, RootPath(h, id)) = id

MkNone == <<>>
MixHist == <<"parse", "parse", "parse", "unparse", "force", "force", "poke", "poke", "add", "ask">>
MixNav == <<"parse", "force", "new", "add", "add", "attach", "move", "ask", "ask", "ask", "asktop", "unparse", "merge">>
MixWalk == <<"walk", "walk", "parse", "force", "poke", "add", "unparse">>
MixMerge == <<"merge", "merge", "merge", "new", "add", "add", "attach", "move", "parse", "force", "asktop", "ask">>
=============================================================================
