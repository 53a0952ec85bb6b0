-------------------------------- MODULE Uol --------------------------------
(* UOL links: which node the entry of a UOL may stand for once its image is  *)
(* parsed.  A skeleton of nodes is grown, encoded, and every UOL classified: *)
(* `ok` is the set of nodes its slot may hold (itself: it stays a UOL).      *)
EXTENDS Heap, KeyStreams, Emit, SequencesExt
CONSTANTS MaxNodes, MaxUols, Exh
VARIABLES ph, sk, kid, off

X0 == [nf |-> "in0", vf |-> "in73", tf |-> "in73", lg |-> FALSE, alt |-> TRUE, pad |-> 0, sd |-> 1, w |-> 1, h |-> 1, fm |-> 1, sc |-> 0, pg |-> 0, u1 |-> 0, ver |-> 1]
Nm(i) == CASE i = 0 -> <<97>> [] i = 1 -> <<98>> [] i = 2 -> <<99>> [] i = 3 -> <<48>> [] i = 4 -> <<49>> [] OTHER -> <<54620>>
\* ---- the skeleton: sk[1] is the image; [par, k, n, tgt, up, dn] ----
S0(par, k, n) == [par |-> par, k |-> k, n |-> n, tgt |-> 0, up |-> 0, dn |-> <<>>, v |-> <<>>]
KidsOf(s, j) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i > 1 /\ s[i].par = j)
PosIn(s, seq, j) == CHOOSE i \in 1..Len(seq) : seq[i] = j
\* the name a reader sees (points of a convex are numbered)
NameIn(s, j) == IF s[s[j].par].k = "convex" THEN DecName(PosIn(s, KidsOf(s, s[j].par), j) - 1) ELSE s[j].n
RECURSIVE NP(_, _)
NP(s, j) == IF j = 1 THEN <<>> ELSE Append(NP(s, s[j].par), NameIn(s, j))
RECURSIVE Common(_, _)
Common(p, q) == IF p = <<>> \/ q = <<>> \/ Head(p) # Head(q) THEN 0 ELSE 1 + Common(Tail(p), Tail(q))
Min2(x, y) == IF x < y THEN x ELSE y
\* up from the parent of the UOL, past the common part by up, and down to the target, then dn
UolPath(s, j) ==
  LET p == NP(s, s[j].par)
      q == NP(s, s[j].tgt)
      c == Common(p, q) - Min2(s[j].up, Common(p, q))
  IN [i \in 1..(Len(p) - c) |-> DotDot] \o SubSeq(q, c + 1, Len(q)) \o s[j].dn
RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<47>> \o Join(Tail(p))
RECURSIVE Content(_, _)
Content(s, j) ==
  LET ks == KidsOf(s, j) IN
  [i \in 1..Len(ks) |-> LET e == s[ks[i]] IN
     [n |-> NameIn(s, ks[i]), k |-> e.k, v |-> IF e.k = "uol" THEN Join(UolPath(s, ks[i])) ELSE IF e.k \in {"int", "raw"} THEN <<ks[i]>> ELSE IF e.k = "canvas" THEN <<120, 156, 3, 0>> ELSE e.v, c |-> Content(s, ks[i]), x |-> X0]]

\* ---- the heap of the parsed image before any UOL is resolved ----
HeapOf(c) == Grow1(<<Mk(<<116, 46, 105, 109, 103>>, "image", <<>>, 0, 1)>>, 1, AbsSeq(c), 1)
RECURSIVE Split(_, _)
Split(v, acc) == IF v = <<>> THEN <<acc>> ELSE IF Head(v) = 47 THEN <<acc>> \o Split(Tail(v), <<>>) ELSE Split(Tail(v), Append(acc, Head(v)))
\* one step from every node of a set; al[u]: nodes the slot of UOL u may hold besides u
StepSet(g, S, nm, al) ==
  IF nm = DotDot THEN {g[i].par : i \in S} \ {0}
  ELSE UNION {LET c == At1(g, i, nm) IN IF c = 0 THEN {} ELSE IF g[c].k = "uol" THEN {c} \cup al[c] ELSE {c} : i \in S}
RECURSIVE WalkSet(_, _, _, _), Fix(_, _, _)
WalkSet(g, S, p, al) == IF p = <<>> \/ S = {} THEN S ELSE WalkSet(g, StepSet(g, S, Head(p), al), Tail(p), al)
Uols(g) == {i \in 1..Len(g) : g[i].k = "uol"}
Goals(g, u, al) == WalkSet(g, {g[u].par}, Split(g[u].v, <<>>), al)
Fix(g, al, k) == LET nx == [u \in Uols(g) |-> Goals(g, u, al)] IN IF nx = al \/ k = 0 THEN nx ELSE Fix(g, nx, k - 1)
Poss(g) == Fix(g, [u \in Uols(g) |-> {}], 12)
\* the plain meaning: a walk that touches no UOL
RECURSIVE Plain(_, _, _)
Plain(g, i, p) ==
  IF p = <<>> THEN i
  ELSE LET c == IF Head(p) = DotDot THEN g[i].par ELSE At1(g, i, Head(p))
       IN IF c = 0 \/ g[c].k = "uol" THEN 0 ELSE Plain(g, c, Tail(p))
\* nodes at or below S, through children and everything UOLs may stand for
RECURSIVE Down(_, _, _)
Down(g, S, al) ==
  LET nx == S \cup UNION {UNION {{g[i].kids[j]} \cup (IF g[g[i].kids[j]].k = "uol" THEN al[g[i].kids[j]] ELSE {}) : j \in 1..Len(g[i].kids)} : i \in S}
  IN IF nx = S THEN S ELSE Down(g, nx, al)
OkSet(g, u, al) ==
  LET t == Plain(g, g[u].par, Split(g[u].v, <<>>)) IN
  IF al[u] = {} THEN {u}
  ELSE IF t # 0 /\ g[u].par \notin Down(g, {t}, al) THEN {t}
  ELSE IF t # 0 /\ g[u].par \in Down(g, {t}, [v \in Uols(g) |-> {}]) THEN {u}
  ELSE al[u] \cup {u}
Slotted(g, u) == At1(g, g[u].par, g[u].n) = u          \* its slot was not taken by a later namesake
\* a UOL path joined onto the path of its node: '..' drops one name, and stays where there is none
RECURSIVE Resolved(_, _), Show(_, _, _)
Resolved(p, u) == IF u = <<>> THEN p
                  ELSE Resolved(IF Head(u) = DotDot /\ p # <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE Append(p, Head(u)), Tail(u))
Show(g, id, al) == [i |-> id, n |-> g[id].n, k |-> g[id].k, v |-> g[id].v, par |-> g[id].par,
                    ok |-> IF g[id].k = "uol" THEN SetToSeq(OkSet(g, id, al)) ELSE <<>>,
                    c |-> [j \in 1..Len(g[id].kids) |-> Show(g, g[id].kids[j], al)]]

\* ---- growing ----
Cont == {"prop", "canvas", "convex", "raw"}
One(S) == IF Exh THEN S ELSE R(S)
Init == ph = "grow" /\ sk = <<S0(0, "image", <<>>)>> /\ kid = "none" /\ off = 0
Usable(j) == sk[j].k \in Cont \cup {"image"} /\ (sk[j].k = "convex" => Len(KidsOf(sk, j)) < 9)
NUols == Cardinality({j \in 1..Len(sk) : sk[j].k = "uol"})
Grow == /\ ph = "grow" /\ Len(sk) < MaxNodes
        /\ \E j \in One({x \in 1..Len(sk) : Usable(x)}) : \E k \in One(IF Exh THEN {"prop", "uol"} ELSE IF NUols < MaxUols THEN {"prop", "prop", "canvas", "convex", "raw", "int", "uol", "uo2", "uo3"} ELSE {"prop", "prop", "canvas", "convex", "raw", "int"}) :
           \E i \in One(IF Exh THEN {0, 1} ELSE 0..5) :
             LET kk == IF k \in {"uo2", "uo3"} THEN "uol" ELSE IF sk[j].k = "convex" /\ k \in {"canvas", "raw", "int"} THEN "prop" ELSE k
                 dup == \E x \in 2..Len(sk) : sk[x].par = j /\ sk[x].n = Nm(i)
             IN IF sk[j].k # "convex" /\ dup /\ (Exh \/ RandomElement(0..11) > 0) THEN (~Exh /\ UNCHANGED sk)
                ELSE IF Exh /\ kk = "uol" /\ NUols >= MaxUols THEN FALSE
                ELSE sk' = Append(sk, S0(j, kk, Nm(i)))
        /\ UNCHANGED <<ph, kid, off>>
Aim == /\ ph = "grow" /\ (Exh \/ Len(sk) >= MaxNodes \/ RandomElement(0..7) = 0) /\ NUols > 0
       /\ ph' = "aim" /\ UNCHANGED <<sk, kid, off>>
ToAim == {j \in 1..Len(sk) : sk[j].k = "uol" /\ sk[j].tgt = 0}
\* a target, how far up to go, and what to append
Point == /\ ph = "aim" /\ ToAim # {}
         /\ LET j == CHOOSE x \in ToAim : \A y \in ToAim : x <= y IN
            \E t \in One(1..Len(sk)) : \E up \in One(IF Exh THEN {0} ELSE {0, 0, 1, 2}) :
            \E d \in One(IF Exh THEN {<<>>, <<Nm(0)>>} ELSE {<<>>, <<Nm(3)>>, <<Nm(4)>>, <<Nm(0)>>, <<Nm(1)>>, <<DotDot>>, <<Nm(0), DotDot>>, <<DotDot, DotDot, DotDot>>, <<<<122>>>>, <<Nm(0), Nm(1)>>, <<<<>>>>}) :
              sk' = [sk EXCEPT ![j].tgt = t, ![j].up = up, ![j].dn = IF ~Exh /\ RandomElement(0..2) > 0 THEN <<>> ELSE d]
         /\ UNCHANGED <<ph, kid, off>>
Pack == /\ ph = "aim" /\ ToAim = {}
        /\ \E k \in One({"none", "gms"}) : \E o \in One(IF Exh THEN {0} ELSE {0, 1, 60}) : kid' = k /\ off' = o
        /\ ph' = "write" /\ UNCHANGED sk
EmitUol == /\ ph = "write"
           /\ \E c \in {Content(sk, 1)} : \E g \in {HeapOf(c)} : \E al \in {Poss(g)} :
                EmitCase([op |-> "uol", kid |-> kid, off |-> off, bytes |-> RandBytes(off, off) \o EncImage(kid, c), tree |-> Show(g, 1, al),
                          paths |-> IF Exh THEN <<>> ELSE [x \in 1..4 |-> LET p == [i \in 1..RandomElement(1..4) |-> RandomElement({<<97>>, <<98>>, <<48, 49>>, <<>>})]
                                                      u == [i \in 1..RandomElement(1..6) |-> RandomElement({DotDot, DotDot, <<97>>, <<99>>})]
                                                  IN [p |-> p, u |-> u, r |-> Resolved(SubSeq(p, 1, Len(p) - 1), u)]]])
           /\ ph' = "done" /\ UNCHANGED <<sk, kid, off>>
Next == Grow \/ Aim \/ Point \/ Pack \/ EmitUol

\* ---- facts of the specification ----
\* replacing the slots one after another, in any order, as the plain meaning says, stays within `ok` and acyclic
Written == ph = "write"
Sound == Written => LET g == HeapOf(Content(sk, 1)) al == Poss(g) IN
           \A u \in Uols(g) : LET t == Plain(g, g[u].par, Split(g[u].v, <<>>)) IN (t # 0 => t \in al[u]) /\ OkSet(g, u, al) # {}
MustAcyclic == Written => LET g == HeapOf(Content(sk, 1)) al == Poss(g)
                              must == [u \in Uols(g) |-> IF OkSet(g, u, al) # {u} /\ Cardinality(OkSet(g, u, al)) = 1 THEN OkSet(g, u, al) ELSE {}]
                          IN \A u \in Uols(g) : must[u] # {} => g[u].par \notin Down(g, must[u], must)
=============================================================================
