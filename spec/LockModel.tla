------------------------------ MODULE LockModel -----------------------------
(* The lock protocol of the tree, step by step: every node has a lock that   *)
(* readers share and that waiting writers close to new readers.  Operations  *)
(* are lists of steps; a few threads run one each, in every interleaving.    *)
(* Nodes: 0 the base, 1 a directory, 2 an image in it, 3 a canvas in it,     *)
(* 4 its link, 5 another image at the base, 6 a canvas in that.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Family      \* Family: the operations that run together
Nodes == 0..6
Par(n) == CASE n = 0 -> -1 [] n = 1 -> 0 [] n = 2 -> 1 [] n = 3 -> 2 [] n = 4 -> 3 [] n = 5 -> 0 [] OTHER -> 5
Parsed0 == {0, 1, 3, 4, 6}     \* the images are not
\* steps
r(n) == <<"r", n>>  ur(n) == <<"ur", n>>  w(n) == <<"w", n>>  uw(n) == <<"uw", n>>
RECURSIVE Ups(_)
Ups(n) == IF n = -1 THEN <<>> ELSE <<r(n), ur(n)>> \o Ups(Par(n))
Up(n) == <<r(n)>> \o Ups(Par(n)) \o <<ur(n)>>                        \* get_full_path and the like, under a guard of the node
ParseN(n) == <<w(n), <<"parse", n>>, uw(n)>>
ParsedAt(n, k) == <<w(n), <<"parse", n>>, <<"at", k>>, uw(n)>>       \* one step of at_path_parsed: parse and look up under one lock
At(n, k) == <<r(n), <<"peek", n>>, <<"maybe", k>>, ur(n)>>
Text(n) == <<r(n), ur(n)>>
Inlink == <<r(3), r(2), ur(2), ur(3)>> \o At(2, 3)                  \* from the canvas up to its image, then down, one lock at a time
Outlink == <<r(3)>> \o Ups(2) \o <<ur(3)>> \o <<r(0), ur(0)>> \o ParsedAt(5, 6)
Picture == <<r(3), ur(3)>> \o Text(4) \o Inlink \o Outlink \o Text(6)
Op(k) == CASE k = "parse1" -> ParseN(1) [] k = "parse2" -> ParseN(2) [] k = "parse5" -> ParseN(5) [] k = "parse0" -> ParseN(0)
           [] k = "full3" -> Up(3) [] k = "full2" -> Up(2) [] k = "full4" -> Up(4) [] k = "peek2" -> <<r(2), <<"peek", 2>>, ur(2)>>
           [] k = "atp" -> <<r(0)>> \o ParsedAt(1, 2) \o ParsedAt(2, 3) \o <<ur(0)>>
           [] k = "atq" -> <<r(0)>> \o ParsedAt(5, 6) \o <<ur(0)>>
           [] k = "at" -> <<r(0)>> \o At(1, 2) \o At(2, 3) \o <<ur(0)>>
           [] k = "pic" -> Picture [] k = "in" -> Inlink [] k = "out" -> Outlink
           [] k = "walk" -> <<w(1), <<"parse", 1>>, uw(1), r(1), ur(1)>> \o <<w(2), <<"parse", 2>>, uw(2), r(2), <<"peek", 2>>, ur(2)>> \o <<w(3), uw(3), r(3), ur(3), w(2), <<"unparse", 2>>, uw(2)>>
           [] OTHER -> <<>>
\* operations that may meet: no writer of the base next to one that goes down under a guard of the base
Fam == CASE Family = "down" -> <<"parse1", "parse2", "full3", "full4", "peek2", "atp", "atq", "at", "pic", "in", "out">>
         [] Family = "root" -> <<"parse0", "parse1", "parse2", "parse5", "full2", "full3", "full4", "peek2", "pic", "in", "out">>
         [] Family = "walk" -> <<"parse2", "full3", "peek2", "atp", "in", "walk">>
         [] Family = "few" -> <<"parse1", "parse2", "full3", "full4", "atp", "in">>
         [] Family = "known" -> <<"parse0", "parse2", "parse1", "full2", "at", "atp">>
VARIABLES op, pc, rd, wr, wait, parsed, gen, got
vars == <<op, pc, rd, wr, wait, parsed, gen, got>>
Init == /\ \E o \in [1..Threads -> 1..Len(Fam)] : (\A t \in 2..Threads : o[t - 1] <= o[t]) /\ op = [t \in 1..Threads |-> Fam[o[t]]] /\ pc = [t \in 1..Threads |-> 1] /\ rd = [n \in Nodes |-> {}] /\ wr = [n \in Nodes |-> 0]
        /\ wait = [t \in 1..Threads |-> -1] /\ parsed = Parsed0 /\ gen = [n \in Nodes |-> IF n \in Parsed0 THEN 1 ELSE 0] /\ got = [t \in 1..Threads |-> {}]
Done(t) == pc[t] > Len(Op(op[t]))
Cur(t) == Op(op[t])[pc[t]]
Adv(t) == pc' = [pc EXCEPT ![t] = @ + 1]
Wanted(n, t) == \E u \in 1..Threads : u # t /\ wait[u] = n
Do(t) ==
  LET s == Cur(t)[1]  n == Cur(t)[2] IN
  CASE s = "r" -> /\ wr[n] = 0 /\ ~Wanted(n, t) /\ t \notin rd[n] /\ rd' = [rd EXCEPT ![n] = @ \cup {t}] /\ Adv(t) /\ UNCHANGED <<wr, wait, parsed, gen, got>>
    [] s = "ur" -> rd' = [rd EXCEPT ![n] = @ \ {t}] /\ Adv(t) /\ UNCHANGED <<wr, wait, parsed, gen, got>>
    [] s = "w" -> IF wr[n] = 0 /\ rd[n] = {} THEN wr' = [wr EXCEPT ![n] = t] /\ wait' = [wait EXCEPT ![t] = -1] /\ Adv(t) /\ UNCHANGED <<rd, parsed, gen, got>>
                  ELSE wait[t] # n /\ wait' = [wait EXCEPT ![t] = n] /\ UNCHANGED <<pc, rd, wr, parsed, gen, got>>
    [] s = "uw" -> wr' = [wr EXCEPT ![n] = 0] /\ Adv(t) /\ UNCHANGED <<rd, wait, parsed, gen, got>>
    [] s = "parse" -> /\ parsed' = parsed \cup {n} /\ gen' = (IF n \in parsed THEN gen ELSE [gen EXCEPT ![n] = @ + 1]) /\ Adv(t) /\ UNCHANGED <<rd, wr, wait, got>>
    [] s = "unparse" -> parsed' = parsed \ {n} /\ Adv(t) /\ UNCHANGED <<rd, wr, wait, gen, got>>
    \* a child, by name: which of its lives it is; 0: it is not there
    [] s \in {"at", "maybe"} -> LET g == <<s, n, IF Par(n) \in parsed THEN gen[Par(n)] ELSE 0>> IN
                  /\ got' = [got EXCEPT ![t] = @ \cup {g}]
                  /\ IF s = "maybe" /\ g[3] = 0 THEN pc' = [pc EXCEPT ![t] = LET P == Op(op[t]) IN CHOOSE k \in pc[t]..Len(P) : k > pc[t] /\ P[k] = ur(Par(n)) /\ \A j \in (pc[t] + 1)..(k - 1) : P[j] # ur(Par(n))] ELSE Adv(t)
                  /\ UNCHANGED <<rd, wr, wait, parsed, gen>>
    [] OTHER -> Adv(t) /\ UNCHANGED <<rd, wr, wait, parsed, gen, got>>
Next == \/ \E t \in 1..Threads : ~Done(t) /\ Do(t) /\ UNCHANGED op
        \/ (\A t \in 1..Threads : Done(t)) /\ UNCHANGED vars
\* ---- facts ----
Excl == \A n \in Nodes : wr[n] # 0 => rd[n] = {}
Once == Family # "walk" => \A n \in Nodes : gen[n] <= 1
Found == \A t \in 1..Threads : \A g \in got[t] : g[1] = "at" => g[3] # 0
Same == Family # "walk" => \A t, u \in 1..Threads : \A g \in got[t], h \in got[u] : g[2] = h[2] /\ g[3] # 0 /\ h[3] # 0 => g[3] = h[3]
Clean == (\A t \in 1..Threads : Done(t)) => \A n \in Nodes : rd[n] = {} /\ wr[n] = 0
=============================================================================
