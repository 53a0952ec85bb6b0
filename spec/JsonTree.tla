------------------------------ MODULE JsonTree ------------------------------
(* Trees of every kind of node, made by hand or read from an image, and      *)
(* their JSON forms: the full form reads back as the same tree with its      *)
(* parent links restorable; the simple form mirrors names and values.        *)
EXTENDS WzFormat, KeyStreams, Emit, SequencesExt
CONSTANTS MaxNodes, MaxKids, Op
VARIABLES ph, src, t, todo

X0 == [nf |-> "in0", vf |-> "in0", tf |-> "in73", lg |-> FALSE, alt |-> TRUE, pad |-> 0, sd |-> 1, w |-> 0, h |-> 0, fm |-> 2, sc |-> 0, pg |-> 0, u1 |-> 0, ver |-> 1, hd |-> <<>>]
\* ---- pools ----
Nm(i) == CASE i = 0 -> <<97>> [] i = 1 -> <<116,121,112,101>> [] i = 2 -> <<100,97,116,97>> [] i = 3 -> <<110,97,109,101>>
           [] i = 4 -> <<99,104,105,108,100,114,101,110>> [] i = 5 -> <<48>> [] i = 6 -> <<27979, 12354>> [] i = 7 -> <<55357, 56832>>
           [] i = 8 -> <<34, 92, 9>> [] i = 9 -> <<120>> [] i = 10 -> <<95,105,110,108,105,110,107>> [] i = 11 -> <<80,114,111,112,101,114,116,121>>
           [] i = 12 -> <<49>> [] i = 13 -> [j \in 1..140 |-> 65 + (j % 26)] [] i = 14 -> <<46, 46, 46>> [] i = 15 -> <<32>> [] i = 16 -> <<97, 0>> [] i = 17 -> <<65>> [] OTHER -> <<110, 48 + (i % 10), 48 + ((i \div 10) % 10)>>
JTxt(i) == CASE i = 0 -> <<>> [] i = 1 -> <<104, 105>> [] i = 2 -> <<34, 92, 47, 8, 1>> [] i = 3 -> <<20013, 25991>> [] i = 4 -> <<55357, 56832, 33>>
            [] i = 5 -> [j \in 1..200 |-> 33 + (j % 90)] [] i = 6 -> <<110,117,108,108>> [] i = 7 -> <<49, 50>> [] i = 8 -> <<233>> [] i = 9 -> <<127, 128, 65535>>
            [] i = 10 -> <<120, 0>> [] i = 11 -> <<0>> [] i = 12 -> <<32, 120, 32>> [] i = 13 -> <<10, 13, 9>> [] i = 14 -> <<65279, 0, 65>> [] i = 15 -> [j \in 1..5000 |-> 33 + (j % 90)]
            [] i = 16 -> <<116, 114, 117, 101>> [] i = 17 -> <<123, 125>> [] OTHER -> <<46, 46, 47, 46, 46>>
Ints == <<0, 1, -1, 127, 128, -128, 32767, -32768, 65536, 2147483647, -2147483647 - 1, 123456789>>
Shorts == <<0, 1, -1, 255, 256, 32767, -32768>>
Longs == <<LE64(0), LE64(-1), LE64(77), <<0,0,0,0,1,0,0,0>>, <<255,255,255,255,255,255,255,127>>, <<0,0,0,0,0,0,0,128>>, <<1,2,3,4,5,6,7,8>>, <<1,0,0,0,0,0,32,0>>>>
Floats == <<<<0,0,0,0>>, <<0,0,128,63>>, <<205,204,140,63>>, <<219,15,73,192>>, <<1,0,0,0>>, <<255,255,127,127>>, <<0,0,0,128>>, <<0,36,116,73>>>>
Doubles == <<<<0,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,240,63>>, <<24,45,68,84,251,33,9,192>>, <<1,0,0,0,0,0,0,0>>, <<255,255,255,255,255,255,239,127>>, <<0,0,0,0,0,0,0,128>>, <<154,153,153,153,153,153,185,63>>, <<0,0,0,0,132,215,151,65>>>>
Wild4 == <<<<0,0,128,127>>, <<0,0,128,255>>, <<0,0,192,127>>>>
Wild8 == <<<<0,0,0,0,0,0,240,127>>, <<0,0,0,0,0,0,240,255>>, <<1,0,0,0,0,0,248,127>>>>
P(s, i) == s[(i % Len(s)) + 1]
SoundNames == <<<<77, 112, 51>>, <<87, 97, 118>>, <<66, 105, 110, 97, 114, 121>>>>     \* Mp3 Wav Binary
Val(k, i, j) ==
  CASE k = "short" -> <<P(Shorts, i)>> [] k = "int" -> <<P(Ints, i)>> [] k = "long" -> P(Longs, i) [] k = "float" -> P(Floats, i) [] k = "double" -> P(Doubles, i)
    [] k = "wfloat" -> P(Wild4, i) [] k = "wdouble" -> P(Wild8, i)
    [] k \in {"str", "pstr"} -> JTxt(i % 19) [] k = "uol" -> <<122, 122, 47, 122, 48 + (i % 10)>> [] k = "vec" -> <<P(Ints, i), P(Ints, j)>>
    [] k = "canvas" -> <<(i * 37) % 5000, (j * 11) % 3000>> [] k = "sound" -> <<i * 1001, j % 3>>
    [] k \in {"file", "msfile"} -> <<P(Ints, i), P(Ints, j), i % 2, P(Ints, i + j), j % 2, i % 256>> [] OTHER -> <<>>
Carried == {"null", "short", "int", "long", "float", "double", "str", "pstr", "uol", "vec", "prop", "convex", "canvas", "sound"}
Files == {"file", "dir", "image", "msfile", "msimage"}
Dark == {"raw", "video", "lua", "wfloat", "wdouble"}        \* what JSON cannot carry
InImage == {"null", "short", "int", "long", "float", "double", "str", "uol", "vec", "prop", "convex", "canvas", "sound"}
Kinds == CASE src = "image" -> InImage [] src = "image2" -> InImage \cup {"raw", "video", "wfloat", "wdouble"}
           [] src = "mem" -> Carried \cup Files [] OTHER -> Carried \cup Files \cup Dark
FromImage == src \in {"image", "image2"}
KidsOf(i) == SelectSeq([j \in 1..Len(t) |-> j], LAMBDA j : t[j].par = i)
\* every node can have children when made by hand
CanHold(i) == IF FromImage THEN t[i].k \in {"image", "prop", "canvas", "convex"} ELSE TRUE
\* a name that does not meet the metadata of its parent
MetaNames == {<<119,105,100,116,104>>, <<104,101,105,103,104,116>>}
Kids(i) == {j \in 1..Len(t) : t[j].par = i}
Init == ph = "src" /\ src = "" /\ t = <<>> /\ todo = 0
Start == /\ ph = "src" /\ ph' = "grow"
         /\ \E s \in R({"mem", "mem", "dark", "image", "image2"}) : \E n \in R(1..MaxNodes) : src' = s /\ todo' = n
         /\ \E k \in R(Files \cup Carried) : \E nm \in R({Nm(0), Nm(3), <<>>, Nm(6), Nm(9)}) : \E i \in R(0..99) : \E j \in R(0..99) :
              LET kk == IF src' \in {"image", "image2"} THEN "image" ELSE k
              IN t' = <<[par |-> 0, n |-> nm, k |-> kk, v |-> Val(kk, i, j)]>>
\* deep, wide or anywhere
Parents == {i \in 1..Len(t) : CanHold(i) /\ Cardinality(Kids(i)) < MaxKids}
Grow == /\ ph = "grow" /\ Len(t) < todo /\ Parents # {} /\ UNCHANGED <<ph, src, todo>>
        /\ \E b \in R(0..2) : \E p0 \in R(Parents) : \E k0 \in R(Kinds) : \E nm \in R(0..40) : \E i \in R(0..99) : \E j \in R(0..99) :
             LET p == IF b = 0 THEN CHOOSE x \in Parents : \A y \in Parents : y <= x ELSE p0
                 k == IF FromImage /\ t[p].k = "convex" /\ k0 \notin {"vec", "convex", "prop", "uol"} THEN "vec" ELSE k0
                 n0 == Nm(nm) used == {t[x].n : x \in Kids(p)}
                 n == IF FromImage /\ t[p].k = "convex" THEN DecName(Cardinality(Kids(p))) ELSE IF n0 \in used THEN <<107, 48 + (Len(t) % 10), 48 + (Len(t) \div 10)>> ELSE n0
             IN t' = Append(t, [par |-> p, n |-> n, k |-> k, v |-> Val(k, i, j)])
Stop == ph = "grow" /\ (Len(t) = todo \/ Parents = {}) /\ ph' = "emit" /\ UNCHANGED <<src, t, todo>>

\* ---- the simple form; a JSON value is told by its kind ----
JNull == [j |-> "null"]
JInt(b) == [j |-> "int", b |-> b]
JStr(u) == [j |-> "str", u |-> u]
JObj(m) == [j |-> "obj", m |-> m]
KV(k, v) == [k |-> k, v |-> v]
Sign8(n) == LE64(n)
Meta(nd) == CASE nd.k = "canvas" -> <<KV(<<119,105,100,116,104>>, JInt(Sign8(nd.v[1]))), KV(<<104,101,105,103,104,116>>, JInt(Sign8(nd.v[2])))>>
              [] nd.k = "sound" -> <<KV(<<100,117,114,97,116,105,111,110>>, JInt(Sign8(nd.v[1]))), KV(<<115,111,117,110,100,95,116,121,112,101>>, JStr(SoundNames[nd.v[2] + 1]))>>
              [] OTHER -> <<>>
Leaf(nd) == CASE nd.k \in {"short", "int"} -> JInt(Sign8(nd.v[1])) [] nd.k = "long" -> JInt(nd.v)
              [] nd.k = "float" -> [j |-> "f32", b |-> nd.v] [] nd.k = "double" -> [j |-> "f64", b |-> nd.v]
              [] nd.k \in {"str", "pstr", "uol"} -> JStr(nd.v)
              [] nd.k = "vec" -> JObj(<<KV(<<120>>, JInt(Sign8(nd.v[1]))), KV(<<121>>, JInt(Sign8(nd.v[2])))>>)
              [] nd.k \in {"canvas", "sound"} -> JObj(Meta(nd))
              [] OTHER -> JNull
RECURSIVE Simple(_)
Simple(i) == LET ks == KidsOf(i) IN
  IF ks = <<>> THEN Leaf(t[i])
  ELSE JObj(Meta(t[i]) \o [x \in 1..Len(ks) |-> KV(t[ks[x]].n, Simple(ks[x]))])
\* ---- the tree as an image ----
RECURSIVE Node(_)
Node(i) ==
  LET nd == t[i]  ks == KidsOf(i)
      k == IF nd.k = "wfloat" THEN "float" ELSE IF nd.k = "wdouble" THEN "double" ELSE nd.k
      x == CASE k = "canvas" -> [X0 EXCEPT !.w = nd.v[1], !.h = nd.v[2]]
             [] k = "sound" -> [X0 EXCEPT !.w = nd.v[1], !.hd = LET h == RandBytes(i, IF nd.v[2] = 0 THEN 60 ELSE 70) IN IF nd.v[2] = 1 THEN SubSeq(h, 1, 56) \o <<9, 9, 9, 9>> \o SubSeq(h, 61, 70) ELSE h]
             [] OTHER -> [X0 EXCEPT !.alt = (i % 2 = 0), !.lg = (i % 3 = 0), !.nf = IF i % 4 = 0 THEN "ref1" ELSE "in0", !.tf = IF i % 5 = 0 THEN "ref1b" ELSE "in73"]
      v == CASE k = "canvas" -> <<120, 156, 3, 0>> [] k \in {"raw", "video"} -> RandBytes(i, 5) [] k = "sound" -> RandBytes(i, 4) [] OTHER -> nd.v
  IN [n |-> nd.n, k |-> k, v |-> v, c |-> [y \in 1..Len(ks) |-> Node(ks[y])], x |-> x]
\* a stored sound is never "Binary" unless its header states its size and it lasts a second
Fixed(nd) == IF nd.k = "sound" /\ nd.v[2] = 2 THEN [nd EXCEPT !.v[2] = 1] ELSE nd
Emit0 == LET top == KidsOf(1)  im == [x \in 1..Len(top) |-> Node(top[x])]
         IN EmitCase([op |-> Op, src |-> src, kid |-> "none", off |-> 0,
                      bytes |-> IF FromImage THEN EncImage("none", im) ELSE <<>>, nodes |-> t, simple |-> Simple(1),
                      full |-> \A i \in 1..Len(t) : t[i].k \notin Dark])
FixUp == ph = "emit" /\ ph' = "write" /\ t' = [i \in 1..Len(t) |-> IF FromImage THEN Fixed(t[i]) ELSE t[i]] /\ UNCHANGED <<src, todo>>
EmitIt == ph = "write" /\ Emit0 /\ ph' = "done" /\ UNCHANGED <<src, t, todo>>
Next == Start \/ Grow \/ Stop \/ FixUp \/ EmitIt
\* the simple form has exactly one entry per child (plus the metadata)
RECURSIVE Mirrors(_, _)
Mirrors(i, j) == LET ks == KidsOf(i) IN ks = <<>> \/ (Len(j.m) = Len(ks) + Len(Meta(t[i])) /\ \A x \in 1..Len(ks) : j.m[x + Len(Meta(t[i]))].k = t[ks[x]].n /\ Mirrors(ks[x], j.m[x + Len(Meta(t[i]))].v))
SimpleMirrors == ph = "write" => Mirrors(1, Simple(1))
=============================================================================
