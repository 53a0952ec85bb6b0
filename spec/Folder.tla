-------------------------------- MODULE Folder ------------------------------
(* A data folder: a base archive, the archives it names (in one folder or in *)
(* folders of their own), numbered parts, nested folders, and what is not    *)
(* part of it.  The tree it must resolve to, in whatever order it is listed. *)
EXTENDS Pkg1, KeyStreams, Emit, SequencesExt, FiniteSets
CONSTANTS MaxSteps
VARIABLES ph, ars, fs, en, jk, todo, dress

\* ars[a] = [p, n, loc, main]; ars[1] is the base.  fs[f] = [a, num]; num = <<>>: the archive itself.  en[e] = [f, par, k, n].
T(s) == CASE s = "Base" -> <<66,97,115,101>> [] s = "Map" -> <<77,97,112>> [] s = "Map2" -> <<77,97,112,50>> [] s = "Mob" -> <<77,111,98>> [] s = "Item" -> <<73,116,101,109>>
        [] s = "Npc" -> <<78,112,99>> [] s = "U" -> <<22320,22270>> [] s = "A b" -> <<65,32,98>> [] s = "Mob.2" -> <<77,111,98,46,50>> [] s = "a" -> <<97>> [] s = "Obj" -> <<79,98,106>> [] s = "w" -> <<36039,28304>> [] s = "u" -> <<233,97>> [] s = "a_b" -> <<97,95,98>>
        [] s = "Zzz" -> <<90,122,122>> [] s = "wz" -> <<46,119,122>> [] s = "txt" -> <<46,116,120,116>> [] s = "img" -> <<46,105,109,103>> [] s = "old" -> <<46,111,108,100>>
        [] s = "_" -> <<95>> [] s = "abc" -> <<95,97,98,99>> [] s = "000" -> <<95,48,48,48>> [] s = "2" -> <<50>> [] s = "x" -> <<120>> [] OTHER -> <<63>>
TopN == {"Map", "Map2", "Mob", "Item", "Npc", "Mob.2", "U", "A b"}
InnN == {"a", "Obj", "w", "u", "a_b"}
Nums == {<<48>>, <<48,48,48>>, <<48,48,49>>, <<48,49,55>>, <<54,53,53,51,53>>, <<49,50>>, <<48,48,50>>}

RECURSIVE FDir(_)
FDir(a) == IF a = 1 THEN (IF ars[1].loc = "own" THEN <<T("Base")>> ELSE <<>>)
           ELSE CASE ars[a].loc = "flat" -> <<>> [] ars[a].loc = "top" -> <<ars[a].n>> [] OTHER -> Append(FDir(ars[a].p), ars[a].n)
FilesOf(a) == {f \in 1..Len(fs) : fs[f].a = a}
HasMain(a) == \E f \in FilesOf(a) : fs[f].num = <<>>
EntKids(f, e) == SelectSeq([i \in 1..Len(en) |-> i], LAMBDA i : en[i].f = f /\ en[i].par = e)

\* ---- what it resolves to ----
\* S: the places merged into one, <<file, entry or 0>>
FKids(S) == {i \in 1..Len(en) : <<en[i].f, en[i].par>> \in S}
FNames(S) == {en[i].n : i \in FKids(S)}
Roots(a) == {<<f, 0>> : f \in FilesOf(a)}
ArAt(a, nm) == LET Q == {b \in 2..Len(ars) : ars[b].p = a /\ ars[b].n = nm /\ HasMain(b)} IN IF Q = {} THEN 0 ELSE CHOOSE b \in Q : TRUE
RECURSIVE FNode(_, _), FFile(_)
FNode(S, nm) ==
  LET Kk == {i \in FKids(S) : en[i].n = nm}
      Kd == {i \in Kk : en[i].k = "dir"}
      sub == {<<en[i].f, i>> : i \in Kd}
  IN IF Kd # {} THEN [n |-> nm, k |-> "dir", ids |-> {}, c |-> {FNode(sub, m) : m \in FNames(sub)}]
     ELSE [n |-> nm, k |-> "image", ids |-> Kk, c |-> {}]
FFile(a) == [n |-> ars[a].n, k |-> "file", ids |-> {}, c |-> {IF ArAt(a, m) # 0 THEN FFile(ArAt(a, m)) ELSE FNode(Roots(a), m) : m \in FNames(Roots(a))}]

\* ---- bytes ----
FDirs(f) == <<0>> \o SelectSeq([i \in 1..Len(en) |-> i], LAMBDA i : en[i].f = f /\ en[i].k = "dir")
FImgs(f) == SelectSeq([i \in 1..Len(en) |-> i], LAMBDA i : en[i].f = f /\ en[i].k = "image")
FPos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
IntImage(i) == EncImage(dress.kid, <<[n |-> <<118>>, k |-> "int", v |-> <<i>>, c |-> <<>>, x |-> [nf |-> "in0", vf |-> "in73", tf |-> "in73", lg |-> FALSE, alt |-> TRUE, pad |-> 0, sd |-> 1, w |-> 1, h |-> 1, fm |-> 2, sc |-> 0, pg |-> 0, u1 |-> 0, ver |-> 1]]>>)
FArch(f) == LET ds == FDirs(f) im == FImgs(f) IN
  [kid |-> dress.kid, enc |-> dress.enc, fstart |-> 60, ver |-> dress.ver, hash |-> VerHash(dress.ver), rev |-> FALSE,
   dirs |-> [d \in 1..Len(ds) |-> LET ks == EntKids(f, ds[d]) IN
              [i \in 1..Len(ks) |-> LET e == en[ks[i]] IN [n |-> e.n, t |-> IF e.k = "dir" THEN "dir" ELSE "img", at |-> IF e.k = "dir" THEN FPos(ds, ks[i]) ELSE FPos(im, ks[i]), ck |-> 7, lg |-> FALSE, rf |-> FALSE, wide |-> \E q \in 1..Len(e.n) : e.n[q] > 255]]],
   imgs |-> [i \in 1..Len(im) |-> [b |-> IntImage(im[i]), tree |-> <<>>]]]
FBytes(f) == LET a == FArch(f) IN Archive(a, Layout(a))
Decoy == LET a == [kid |-> dress.kid, enc |-> dress.enc, fstart |-> 60, ver |-> dress.ver, hash |-> VerHash(dress.ver), rev |-> FALSE,
                   dirs |-> << <<[n |-> T("Zzz"), t |-> "img", at |-> 1, ck |-> 7, lg |-> FALSE, rf |-> FALSE, wide |-> FALSE]>> >>, imgs |-> <<[b |-> IntImage(77), tree |-> <<>>]>>]
         IN Archive(a, Layout(a))
\* opening every file on its own, with the key of the base, must be unambiguous
Plain(b, hint) == LET s == FStart(b) r == ReadArchive(b) IN s # -1 /\ HasEncVer(b, s) = dress.enc /\ r.ok /\ KeyFor(b, r.es, hint) = dress.kid
                  /\ (r.es = <<>> \/ Detect(b, s, r.es) = dress.ver)

\* ---- growing ----
Init == ph = "start" /\ ars = <<>> /\ fs = <<>> /\ en = <<>> /\ jk = <<>> /\ todo = 0 /\ dress = [kid |-> "none", enc |-> TRUE, ver |-> 95, key |-> FALSE, bad |-> 0, ln |-> 0]
Start == /\ ph = "start" /\ ph' = "grow"
         /\ \E k \in R({"none", "gms", "ems"}) : \E x \in R(BOOLEAN) : \E key \in R(BOOLEAN) : \E l \in R({"own", "side"}) : \E n \in R(6..MaxSteps) : \E t \in R(TopN) : \E ln \in R({0, 0, 1, 2, 3, 4}) :
              /\ dress' = [kid |-> k, enc |-> x, ver |-> IF x THEN 95 ELSE 775, key |-> key, bad |-> 0, ln |-> ln]
              /\ ars' = <<[p |-> 0, n |-> T("Base"), loc |-> l]>> /\ fs' = <<[a |-> 1, num |-> <<>>]>> /\ en' = <<[f |-> 1, par |-> 0, k |-> "dir", n |-> T(t)]>> /\ todo' = n /\ jk' = <<>>
Free(f, e, nm) == \A i \in 1..Len(en) : ~(en[i].f = f /\ en[i].par = e /\ en[i].n = nm)
\* an entry in some file; names at the top of a flat archive are none of the folders
AddEntry == \E f \in R(1..Len(fs)) : \E e \in R({0, 0} \cup {i \in 1..Len(en) : en[i].f = f /\ en[i].k = "dir"}) : \E t \in R(TopN) : \E i \in R(InnN) : \E z \in R(0..7) :
  LET img == z < 4 /\ ~(f = 1 /\ EntKids(1, 0) = <<>>)
      nm == IF z \in {2, 3, 6, 7} /\ ~(e = 0 /\ ars[fs[f].a].loc = "flat") THEN T(t) ELSE IF fs[f].a = 1 /\ e = 0 /\ ~img THEN T(t) ELSE T(i)
      n == IF img THEN nm \o T("img") ELSE nm
  IN /\ UNCHANGED <<ars, fs, jk>>
     /\ en' = IF Free(f, e, n) THEN Append(en, [f |-> f, par |-> e, k |-> IF img THEN "image" ELSE "dir", n |-> n]) ELSE en
\* an archive: usually for a name that is listed, at the top or in the folder of another one
AddArchive == \E a \in R({1, 1} \cup {b \in 1..Len(ars) : ars[b].loc # "flat"}) : \E t \in R(TopN) : \E z \in R(0..9) : \E l \in R({"flat", "top", "sub"}) :
  LET listed == {m \in FNames(Roots(a)) : \E x \in (IF a = 1 THEN TopN ELSE TopN \cup InnN) : T(x) = m}
  IN \E nm \in R(IF z < 8 /\ listed # {} THEN listed ELSE {T(t)}) :
     LET loc == IF a # 1 THEN "sub" ELSE IF ars[1].loc = "side" /\ l = "sub" THEN "top" ELSE l
         ok == \A b \in 1..Len(ars) : ~(ars[b].p = a /\ ars[b].n = nm)
         main == z # 2
     IN /\ UNCHANGED jk
        /\ IF ok THEN /\ ars' = Append(ars, [p |-> a, n |-> nm, loc |-> loc])
                      /\ fs' = IF main THEN Append(fs, [a |-> Len(ars) + 1, num |-> <<>>]) ELSE fs
                      \* a flat archive whose name no folder of its own
                      /\ \E i \in R(InnN) : en' = IF main /\ z > 2 THEN Append(en, [f |-> Len(fs) + 1, par |-> 0, k |-> IF z < 6 THEN "dir" ELSE "image", n |-> IF z < 6 THEN T(i) ELSE T(i) \o T("img")]) ELSE en
           ELSE UNCHANGED <<ars, fs, en>>
AddPart == \E a \in R(1..Len(ars)) : \E m \in R(Nums) : \E i \in R(InnN) : \E z \in R(0..3) :
  /\ UNCHANGED <<ars, jk>>
  /\ IF \E f \in FilesOf(a) : fs[f].num = m THEN UNCHANGED <<fs, en>>
     ELSE /\ fs' = Append(fs, [a |-> a, num |-> m])
          /\ en' = IF z = 0 THEN en ELSE Append(en, [f |-> Len(fs) + 1, par |-> 0, k |-> IF z < 3 THEN "dir" ELSE "image", n |-> IF z < 3 THEN T(i) ELSE T(i) \o T("img")])
JunkK == {"other", "after", "before", "alpha", "ext", "bare", "dirpart", "raw", "rawdir", "old", "txt", "unl", "wzdir", "bytes"}
AddJunk == \E a \in R(1..Len(ars)) : \E k \in R(JunkK) : \E g \in R(BOOLEAN) :
  /\ UNCHANGED <<ars, fs, en>> /\ jk' = IF \E j \in 1..Len(jk) : jk[j].a = a /\ jk[j].k = k THEN jk ELSE Append(jk, [a |-> a, k |-> k, g |-> g])
Grow == /\ ph = "grow" /\ todo > 0 /\ todo' = todo - 1 /\ UNCHANGED <<ph, dress>>
        /\ \E z \in R(0..15) : IF z < 7 THEN AddEntry ELSE IF z < 11 THEN AddArchive ELSE IF z < 14 THEN AddPart ELSE AddJunk
Damage == /\ ph = "grow" /\ todo = 0 /\ ph' = "write" /\ UNCHANGED <<ars, fs, en, jk, todo>>
          /\ \E z \in R(0..9) : \E f \in R(1..Len(fs)) : \E m \in R(1..4) : dress' = IF z = 0 /\ f > 1 THEN [dress EXCEPT !.bad = f * 10 + m] ELSE dress

\* ---- the folder ----
P0(dir, nm, kind, b) == [p |-> Append(dir, nm), k |-> kind, b |-> b, ln |-> FALSE]
\* a file or a folder can be a link to where it is kept; which ones, by the number of the case
Linked(i, q) == dress.ln # 0 /\ (i * 5 + q * 2) % (dress.ln + 1) = 1
Damaged(b, m) == CASE m = 1 -> <<>> [] m = 2 -> SubSeq(b, 1, 40) [] m = 3 -> SubSeq(b, 1, 62 + (Len(b) % 20)) [] OTHER -> RandBytes(7, 90)
FileName(f) == ars[fs[f].a].n \o (IF fs[f].num = <<>> THEN <<>> ELSE T("_") \o fs[f].num) \o T("wz")
Junk(j, dec) ==
  LET q == jk[j] n == ars[q.a].n d == FDir(q.a) b == IF q.g THEN dec ELSE RandBytes(j, 50) IN
  CASE q.k = "other" -> <<P0(d, T("Zzz") \o T("000") \o T("wz"), "file", b)>> [] q.k = "after" -> <<P0(d, n \o T("x") \o T("000") \o T("wz"), "file", b)>>
    [] q.k = "before" -> <<P0(d, T("x") \o n \o T("000") \o T("wz"), "file", b)>> [] q.k = "alpha" -> <<P0(d, n \o T("abc") \o T("wz"), "file", b)>>
    [] q.k = "ext" -> <<P0(d, n \o T("000") \o T("txt"), "file", b)>> [] q.k = "bare" -> <<P0(d, n \o T("_") \o T("wz"), "file", b)>>
    [] q.k = "dirpart" -> IF \E f \in FilesOf(q.a) : fs[f].num = <<48,48,48>> THEN <<>> ELSE <<P0(d, n \o T("000") \o T("wz"), "dir", <<>>)>>
    [] q.k = "raw" -> <<P0(d, <<255, 254, 95, 48, 46, 119, 122>>, "raw", b)>> [] q.k = "rawdir" -> <<P0(d, <<77, 200, 33>>, "rawdir", <<>>)>>
    [] q.k = "old" -> <<P0(d, n \o T("old"), "dir", <<>>), P0(Append(d, n \o T("old")), n \o T("old") \o T("wz"), "file", b), P0(<<>>, n \o T("old"), "dir", <<>>), P0(<<n \o T("old")>>, n \o T("old") \o T("wz"), "file", b)>>
    [] q.k = "txt" -> <<P0(<<>>, n \o T("txt"), "file", b), P0(<<>>, n \o T("img"), "file", b)>>
    [] q.k = "unl" -> <<P0(d, T("Zzz"), "dir", <<>>), P0(Append(d, T("Zzz")), T("Zzz") \o T("wz"), "file", b)>>
    [] q.k = "wzdir" -> IF HasMain(q.a) THEN <<>> ELSE <<P0(d, n \o T("wz"), "dir", <<>>)>>
    [] OTHER -> <<P0(d, n \o T("_") \o <<45, 49>> \o T("wz"), "file", b)>>
FEmit == /\ ph = "write" /\ ph' = "done" /\ UNCHANGED <<ars, fs, en, jk, todo, dress>>
         /\ \E by \in {[f \in 1..Len(fs) |-> FBytes(f)]} : \E dec \in {Decoy} :
            IF ~(Plain(by[1], "") /\ \A f \in 2..Len(fs) : Plain(by[f], dress.kid)) THEN TRUE
            ELSE LET bad == dress.bad \div 10
                     dirs == [a \in 1..Len(ars) |-> [p |-> FDir(a), k |-> "dir", b |-> <<>>, ln |-> a > 1 /\ FDir(a) # <<>> /\ Linked(a, 1)]]
                     files == [f \in 1..Len(fs) |-> [P0(FDir(fs[f].a), FileName(f), "file", IF f = bad THEN Damaged(by[f], dress.bad % 10) ELSE by[f]) EXCEPT !.ln = Linked(f, 0)]]
                     alone == SelectSeq([a \in 1..Len(ars) |-> a], LAMBDA a : a > 1 /\ HasMain(a) /\ LET f == CHOOSE x \in FilesOf(a) : fs[x].num = <<>> IN Plain(by[f], "") /\ EntKids(f, 0) # <<>>)
                 IN EmitCase([op |-> "folder", kid |-> dress.kid, key |-> dress.key, bad |-> bad # 0, put |-> dirs \o files \o Flat([j \in 1..Len(jk) |-> Junk(j, dec)]),
                              base |-> FDir(1), want |-> FFile(1), seed |-> Len(en) * 31 + Len(fs),
                              alone |-> [i \in 1..Len(alone) |-> [p |-> Append(FDir(alone[i]), ars[alone[i]].n \o T("wz")), want |-> FFile(alone[i])]]])
Next == Start \/ Grow \/ Damage \/ FEmit
\* ---- facts ----
\* every entry of an archive that is attached is in the tree, under the names above it
RECURSIVE FPath(_), Shown(_, _), Att(_)
Att(a) == a = 1 \/ (HasMain(a) /\ Att(ars[a].p) /\ ars[a].n \in FNames(Roots(ars[a].p)))
FPath(i) == IF i = 0 THEN <<>> ELSE Append(FPath(en[i].par), en[i].n)
Shown(t, p) == p = <<>> \/ \E x \in t.c : x.n = Head(p) /\ Shown(x, Tail(p))
RECURSIVE ArPath(_)
ArPath(a) == IF a = 1 THEN <<>> ELSE Append(ArPath(ars[a].p), ars[a].n)
Nothing == ph = "write" => LET t == FFile(1) IN \A i \in 1..Len(en) : LET a == fs[en[i].f].a IN
             Att(a) /\ (\A b \in 2..Len(ars) : ars[b].p = a /\ HasMain(b) => ars[b].n # FPath(i)[1] \/ Len(FPath(i)) = 1) => Shown(t, ArPath(a) \o FPath(i))
=============================================================================
