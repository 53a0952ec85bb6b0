-------------------------------- MODULE Heap --------------------------------
(* Nodes with identities: a heap is a sequence of records; ids are indexes,  *)
(* 0 is "no node".                                                           *)
EXTENDS WzFormat

Mk(n, k, v, par, src) == [n |-> n, k |-> k, v |-> v, par |-> par, kids |-> <<>>, p |-> FALSE, ld |-> FALSE, ca |-> FALSE, src |-> src]
DotDot == <<46, 46>>
Base == <<66, 97, 115, 101>>

\* ---- children by name ----
At1(g, id, nm) == LET S == {j \in 1..Len(g[id].kids) : g[g[id].kids[j]].n = nm}
                  IN IF S = {} THEN 0 ELSE g[id].kids[CHOOSE j \in S : TRUE]
Put(g, pid, cid) ==
  LET ks == g[pid].kids
      S == {j \in 1..Len(ks) : g[ks[j]].n = g[cid].n}
  IN [g EXCEPT ![pid].kids = IF S = {} THEN Append(ks, cid) ELSE [ks EXCEPT ![CHOOSE j \in S : TRUE] = cid]]

\* ---- materialising ----
RECURSIVE Grow1(_, _, _, _)
Grow1(g, pid, nodes, i) ==       \* the properties of an image (abstract nodes) below pid
  IF i > Len(nodes) THEN g
  ELSE LET id == Len(g) + 1
           g1 == Append(g, Mk(nodes[i].n, nodes[i].k, nodes[i].v, pid, 0))
           g2 == Grow1(g1, id, nodes[i].c, 1)
       IN Grow1(Put(g2, pid, id), pid, nodes, i + 1)

\* ---- the bytes of an image that say what comes next: <<where, 77 or 255>> (types and counts of entries, at every depth) ----
RECURSIVE Spots(_, _, _, _), SpotsN(_, _, _, _, _)
SpotsN(kid, x, p, base, m) ==
  IF m = 0 THEN <<>>
  ELSE LET nm == DecBlock(kid, x, p, base)
           e == nm.p + 1                                   \* after the type byte
           t == IF At(x, nm.p) = 9 THEN DecBlock(kid, x, e + 4, base) ELSE Bad
           sub == IF t.v = sProperty THEN Spots(kid, x, t.p + 2, base)
                  ELSE IF t.v = sCanvas /\ At(x, t.p + 1) = 1 THEN Spots(kid, x, t.p + 4, base)
                  ELSE IF t.v = sConvex THEN <<<<t.p, 255>>>> ELSE <<>>
       IN <<<<nm.p, 77>>>> \o sub \o SpotsN(kid, x, GetNode(kid, x, p, base).p, base, m - 1)
Spots(kid, x, p, base) == LET c == DecInt(x, p) IN <<<<p, 255>>>> \o SpotsN(kid, x, c.p, base, c.v)
\* the header (type byte), its text, and the list of the image at base
ImgSpots(kid, x, base) == LET s == DecStr(kid, x, base + 1) IN <<<<base, 77>>, <<s.p, 1>>>> \o Spots(kid, x, s.p + 2, base)

\* ---- navigation ----
RECURSIVE AtPath(_, _, _), AtRel(_, _, _), Chain(_, _), UpImage(_, _), UpBase(_, _)
AtPath(g, id, p) == IF id = 0 \/ p = <<>> THEN id ELSE AtPath(g, At1(g, id, Head(p)), Tail(p))
AtRel(g, id, p) == IF id = 0 \/ p = <<>> THEN id ELSE AtRel(g, IF Head(p) = DotDot THEN g[id].par ELSE At1(g, id, Head(p)), Tail(p))
Chain(g, id) == IF g[id].par = 0 THEN <<id>> ELSE Append(Chain(g, g[id].par), id)    \* topmost first
UpImage(g, id) == IF id = 0 THEN 0 ELSE IF g[id].k = "image" THEN id ELSE UpImage(g, g[id].par)
UpBase(g, id) == IF id = 0 THEN 0 ELSE IF g[id].k = "file" /\ g[id].n = Base THEN id ELSE UpBase(g, g[id].par)
NamesOf(g, ids) == [i \in 1..Len(ids) |-> g[ids[i]].n]
FullPath(g, id) == NamesOf(g, Chain(g, id))
RootPath(g, id) == Tail(FullPath(g, id))
ImageOf(g, id) == UpImage(g, g[id].par)
BaseOf(g, id) == UpBase(g, g[id].par)
ImagePath(g, id) == LET im == ImageOf(g, id) c == Chain(g, id)
                    IN IF im = 0 THEN <<>> ELSE NamesOf(g, SubSeq(c, (CHOOSE j \in 1..Len(c) : c[j] = im) + 1, Len(c)))
RECURSIVE ImgOnPath(_, _, _)
ImgOnPath(g, id, p) ==    \* first image strictly below id on the path: [id, rest]
  IF p = <<>> THEN [id |-> 0, rest |-> <<>>]
  ELSE LET c == At1(g, id, Head(p))
       IN IF c = 0 THEN [id |-> 0, rest |-> <<>>] ELSE IF g[c].k = "image" THEN [id |-> c, rest |-> Tail(p)] ELSE ImgOnPath(g, c, Tail(p))
\* ---- reachability ----
RECURSIVE Below(_, _), Flat2(_, _, _)
Flat2(g, ids, i) == IF i > Len(ids) THEN {} ELSE Below(g, ids[i]) \cup Flat2(g, ids, i + 1)
Below(g, id) == {id} \cup Flat2(g, g[id].kids, 1)

RECURSIVE Snap(_, _)
Snap(g, id) == [i |-> id, n |-> g[id].n, k |-> g[id].k, v |-> g[id].v, p |-> g[id].p, par |-> g[id].par,
                c |-> [j \in 1..Len(g[id].kids) |-> Snap(g, g[id].kids[j])]]
=============================================================================
