-------------------------------- MODULE Conc --------------------------------
(* Several operations at once on a tree of Links: what each must give        *)
(* whatever the schedule, and schedules that stop it at chosen locks.        *)
EXTENDS Links
CONSTANTS What           \* "locks": the locks of every operation; "sched": schedules; "dead": the known deadlock
VARIABLE sc

CN(j) == IF sk[j].k = "uol" THEN Len(KidsOf(sk[j].tgt)) ELSE Len(KidsOf(j))
NodeOf(j) == [p |-> NP(j), k |-> sk[j].k, n |-> CN(j), img |-> IF j > 1 /\ OwnImg(sk[j].par) # 0 THEN <<NP(OwnImg(sk[j].par))>> ELSE <<>>]
Ops == {"parse", "peek", "at_path", "at_path_parsed", "at_direct", "full", "fromroot", "fromimg", "image_of", "base_of", "up", "string", "link", "linkfree", "image", "walk"}
Target(j) == sk[j].k \notin {"uol", "bad"}
Fits(k, j) == CASE k = "string" -> sk[j].k = "lnk" [] k \in {"link", "linkfree"} -> sk[j].k = "lnk" [] k = "image" -> sk[j].k = "canvas" [] k \in {"at_path", "at_path_parsed"} -> j > 1 [] OTHER -> TRUE
\* an operation takes the lock of the base for writing only where no other one holds it while going down
Careful(k, j, fl) == IF fl = "root" THEN k \notin {"at_path", "at_path_parsed"} ELSE ~(k \in {"parse", "walkparse"} /\ j = 1)
\* the nodes on the way to j
RECURSIVE Way(_)
Way(j) == IF j = 0 THEN <<>> ELSE Append(Way(sk[j].par), j)
RECURSIVE Events(_, _, _, _)
Events(hot, n, fl, s) ==
  IF n = 0 THEN s
  ELSE LET z == RandomElement(0..19)
           w == RandomElement(BOOLEAN)
           x == IF RandomElement(0..3) = 0 THEN RandomElement({j \in 1..Len(sk) : Target(j)}) ELSE hot
           o == RandomElement(IF fl = "loose" THEN Ops \cup {"walkparse"} ELSE Ops)
           o2 == IF z < 4 THEN RandomElement({"parse", "at_path_parsed"}) ELSE IF fl = "loose" /\ z < 7 THEN "walkparse" ELSE o
           pool == {j \in 1..Len(sk) : Target(j) /\ Fits(o2, j)}
           near == {j \in pool : Inside(j, hot) \/ Inside(hot, j)}
           y == IF pool = {} THEN 1 ELSE IF near # {} /\ z % 2 = 0 THEN RandomElement(near) ELSE RandomElement(pool)
           ev == IF z >= 17 THEN [e |-> "open", n |-> x, w |-> FALSE] ELSE IF z = 16 THEN [e |-> "close", n |-> x, w |-> w] ELSE [e |-> o2, n |-> y, w |-> FALSE]
       IN Events(hot, n - 1, fl, IF ev.e \notin {"open", "close"} /\ (pool = {} \/ ~Careful(o2, y, fl)) THEN s ELSE Append(s, ev))
CInit == Init /\ sc = [all |-> FALSE, loose |-> FALSE, ev |-> <<>>]
Step0 == (Start \/ Grow \/ Stop \/ More \/ Link \/ Linked \/ Aim \/ Aimed) /\ UNCHANGED sc
Plan == /\ ph = "write" /\ ph' = "go" /\ UNCHANGED <<sk, lim, dress>>
        /\ \E all \in R(BOOLEAN) : \E fl \in R({"root", "down", "down", "loose"}) : \E hot \in R({j \in 1..Len(sk) : Target(j)}) : \E n \in R(3..9) : \E g \in R(0..3) : \E w \in R(BOOLEAN) :
             \E evs \in R({Events(hot, n, fl, <<>>)}) :
             LET cl == CASE g = 0 -> <<hot>> [] g = 1 -> Way(hot) [] g = 2 -> [j \in 1..Len(sk) |-> j] [] OTHER -> <<hot>> \o KidsOf(hot)
                 first == [i \in 1..Len(cl) |-> [e |-> "close", n |-> cl[i], w |-> w]]
                 last == IF g = 2 THEN [i \in 1..Len(cl) |-> [e |-> "open", n |-> cl[i], w |-> FALSE]] ELSE <<>>
             IN sc' = [all |-> all, loose |-> fl = "loose", ev |-> first \o evs \o last]
\* the schedule of the known deadlock: one holds a node and wants to go up, one holds the base and wants to go down, writers wait for both
DeadPath == {j \in 1..Len(sk) : Len(NP(j)) = 2 /\ sk[sk[j].par].k \in {"dir", "image"} /\ Target(j)}
DeadPlan == /\ ph = "write" /\ ph' = (IF DeadPath = {} THEN "done" ELSE "go") /\ UNCHANGED <<sk, lim, dress>>
         /\ sc' = IF DeadPath = {} THEN sc ELSE LET j == CHOOSE j \in DeadPath : TRUE  e(k, n) == [e |-> k, n |-> n, w |-> FALSE] IN
                  [all |-> TRUE, loose |-> FALSE, ev |-> <<e("hold_full", sk[j].par), e("parse", sk[j].par), e("at_path", j), e("parse", 1), e("go", 1)>>]
CEmit == /\ ph = "go" /\ ph' = "done" /\ UNCHANGED <<sk, lim, dress, sc>>
         /\ \E a \in {Arch} : \E L \in {Layout(a)} :
             LET cs == SetToSeq(Cans)
                 ls == SelectSeq([i \in 1..Len(sk) |-> i], LAMBDA i : sk[i].k = "lnk")
                 ims == SetToSeq(Images)
             IN EmitCase([op |-> What, kid |-> a.kid, name |-> sk[1].n, bytes |-> Archive(a, L), nodes |-> [j \in 1..Len(sk) |-> NodeOf(j)],
                          imgs |-> [i \in 1..Len(ims) |-> NP(ims[i])], all |-> sc.all, loose |-> sc.loose, sched |-> sc.ev,
                          cans |-> [i \in 1..Len(cs) |-> [i |-> cs[i], pic |-> Picture(cs[i])]],
                          lnks |-> [i \in 1..Len(ls) |-> LET l == ls[i] w == Lead(l, Images) IN [i |-> l, in |-> sk[l].n = sIn, v |-> Join(LinkPath(l)), to |-> IF w = 0 THEN <<>> ELSE <<NP(w)>>]]])
CNext == Step0 \/ (IF What = "dead" THEN DeadPlan ELSE Plan) \/ CEmit
=============================================================================
