-------------------------------- MODULE Tree --------------------------------
(* The node tree of a program: files, directories, images and properties as  *)
(* a heap of nodes with identities, parent links and parsed flags, over the  *)
(* bytes of an archive that may be damaged and repaired meanwhile.           *)
(* Heap operators are functions of the heap; ParseN etc. give [h, ok].       *)
EXTENDS Pkg1, Heap
VARIABLES a, lay, b, h, roots, seen, steps, bad

RECURSIVE List1(_, _, _, _)
List1(g, pid, d, i) ==           \* the entries of directory d below pid; directories come with theirs
  IF i > Len(a.dirs[d]) THEN g
  ELSE LET e == a.dirs[d][i] IN
    IF e.t = "junk" THEN List1(g, pid, d, i + 1)
    ELSE LET id == Len(g) + 1
             g1 == Append(g, [Mk(e.n, IF e.t = "dir" THEN "dir" ELSE "image", <<>>, pid, e.at) EXCEPT !.ld = (e.t = "dir")])
             g2 == IF e.t = "dir" THEN List1(g1, id, e.at, 1) ELSE g1
         IN List1(Put(g2, pid, id), pid, d, i + 1)

\* ---- can the list of directory d (and below) be read from the bytes there are? ----
RECURSIVE ListOk(_, _)
ListOk(d, cached) ==
  LET rd == Entries(b, lay.dpos[d], a.fstart)
      sub == SelectSeq(a.dirs[d], LAMBDA e : e.t = "dir")
  IN /\ (~cached => rd.ok)
     /\ \A i \in 1..Len(a.dirs[d]) : LET e == a.dirs[d][i] IN
          /\ e.t = "img" => At(b, lay.ipos[e.at]) \in ImgHeader
          /\ e.t = "dir" => ListOk(e.at, FALSE)

\* ---- parse / unparse ----
Parse1(g, id) ==
  LET nd == g[id] IN
  CASE nd.k = "file" -> IF nd.p THEN [h |-> g, ok |-> TRUE]
                        ELSE IF nd.src = 0 \/ ~ListOk(1, FALSE) THEN [h |-> g, ok |-> FALSE]
                        ELSE [h |-> List1([g EXCEPT ![id].p = TRUE], id, 1, 1), ok |-> TRUE]
    [] nd.k = "dir" -> IF nd.p \/ nd.ld \/ nd.src = 0 THEN [h |-> [g EXCEPT ![id].p = TRUE], ok |-> TRUE]
                       ELSE IF ~ListOk(nd.src, nd.ca)
                            THEN [h |-> IF nd.ca \/ Entries(b, lay.dpos[nd.src], a.fstart).ok THEN [g EXCEPT ![id].ca = TRUE] ELSE g, ok |-> FALSE]
                       ELSE [h |-> List1([g EXCEPT ![id].p = TRUE, ![id].ld = TRUE], id, nd.src, 1), ok |-> TRUE]
    [] nd.k = "image" -> IF nd.p THEN [h |-> g, ok |-> TRUE]
                         ELSE IF nd.src = 0 THEN [h |-> g, ok |-> FALSE]
                         ELSE LET r == DecImage(a.kid, b, lay.ipos[nd.src])
                              IN IF ~r.ok THEN [h |-> g, ok |-> FALSE]
                                 ELSE [h |-> Grow1([g EXCEPT ![id].p = TRUE], id, r.c, 1), ok |-> TRUE]
    [] OTHER -> [h |-> g, ok |-> TRUE]
Unparse1(g, id) ==
  IF g[id].k \in {"file", "dir", "image"}
  THEN [g EXCEPT ![id].kids = <<>>, ![id].p = FALSE, ![id].ld = FALSE, ![id].ca = FALSE]
  ELSE g

\* at_path_parsed: the first step only looks, later steps parse what they go through
RECURSIVE AtParsed(_, _, _)
AtParsed(g, id, p) ==     \* id: where we are; p: what is left; [h, id]
  IF p = <<>> THEN [h |-> g, id |-> id]
  ELSE LET r == Parse1(g, id) IN
    IF ~r.ok THEN [h |-> r.h, id |-> 0]
    ELSE LET c == At1(r.h, id, Head(p)) IN IF c = 0 THEN [h |-> r.h, id |-> 0] ELSE AtParsed(r.h, c, Tail(p))
AtPathParsed(g, id, p) == LET c == At1(g, id, Head(p)) IN IF c = 0 THEN [h |-> g, id |-> 0] ELSE AtParsed(g, c, Tail(p))

\* ---- walking ----
RECURSIVE Walk1(_, _, _), WalkKids(_, _, _, _, _)
WalkKids(g, ids, i, force, acc) ==
  IF i > Len(ids) THEN [h |-> g, v |-> acc]
  ELSE LET r == Walk1(g, ids[i], force) IN WalkKids(r.h, ids, i + 1, force, acc \o r.v)
Walk1(g, id, force) ==
  LET g1 == IF force THEN Parse1(g, id).h ELSE g
      r == WalkKids(g1, g1[id].kids, 1, force, <<[p |-> FullPath(g1, id), c |-> Len(g1[id].kids)]>>)
  IN [h |-> IF force /\ r.h[id].k = "image" THEN Unparse1(r.h, id) ELSE r.h, v |-> r.v]

\* ---- merging ----
RECURSIVE Move1(_, _, _), MoveKids(_, _, _, _)
MoveKids(g, ids, i, to) ==
  IF i > Len(ids) THEN g
  ELSE LET c == ids[i]
           old == At1(g, to, g[c].n)
       IN MoveKids(IF old # 0 THEN Move1(g, c, old) ELSE Put([g EXCEPT ![c].par = to], to, c), ids, i + 1, to)
Move1(g, from, to) == LET ids == g[from].kids IN MoveKids([g EXCEPT ![from].kids = <<>>], ids, 1, to)

RECURSIVE Adopt(_, _), AdoptKids(_, _, _, _)
AdoptKids(g, pid, ids, i) == IF i > Len(ids) THEN g ELSE AdoptKids(Adopt([g EXCEPT ![ids[i]].par = pid], ids[i]), pid, ids, i + 1)
Adopt(g, id) == AdoptKids(g, id, g[id].kids, 1)

=============================================================================
