------------------------------ MODULE ImageGen ------------------------------
(* The writer as a state machine: it opens containers, adds properties,       *)
(* closes containers, and finally encodes the image.  Every behaviour ends    *)
(* with the image bytes and the tree a reader must show.                      *)
EXTENDS WzFormat, Json, IOUtils, SequencesExt
CONSTANTS Rand,        \* TRUE: random choice of one value; FALSE: all values
          MaxNodes, MaxDepth, Kinds, Names, Forms, Kids, Offs, ValueSets, Cuts
VARIABLES stack, count, phase, img

WideNames == 1000..1199
vars == <<stack, count, phase, img>>
One(S) == IF Rand THEN {RandomElement(S)} ELSE S

\* ---- value pools (name units / payloads), indexed by small integers ----
Str(i) ==
  CASE i = 0 -> <<>>
    [] i = 1 -> <<97>>
    [] i = 2 -> <<98, 47, 99>>
    [] i = 3 -> <<20013, 25991>>
    [] i = 4 -> <<233, 65>>
    [] i = 5 -> <<55357, 56832, 33>>
    [] i = 6 -> [j \in 1..127 |-> 32 + (j % 90)]
    [] i = 7 -> [j \in 1..128 |-> 33 + (j % 90)]
    [] i = 8 -> [j \in 1..126 |-> 12352 + j]
    [] i = 9 -> [j \in 1..127 |-> 12353 + j]
    [] i = 10 -> [j \in 1..129 |-> 34 + (j % 90)]
    [] i = 11 -> <<46, 46, 47, 97>>
    [] i = 12 -> [j \in 1..128 |-> 44032 + j]
    [] OTHER -> <<122, 48 + (i % 10)>>
NameOf(i) ==
  CASE i = 0 -> <<97>> [] i = 1 -> <<98>> [] i = 2 -> <<48>> [] i = 3 -> <<49>>
    [] i = 4 -> <<27979>> [] i = 5 -> <<95, 105, 110>> [] i = 6 -> <<120, 46, 105, 109, 103>>
    [] i = 7 -> [j \in 1..128 |-> 65 + (j % 26)] [] i = 8 -> [j \in 1..127 |-> 19968 + j]
    [] i = 9 -> [j \in 1..127 |-> 97 + (j % 26)] [] i = 10 -> <<80,114,111,112,101,114,116,121>>
    [] i = 11 -> <<55357, 56833>> [] OTHER -> <<110, 48 + (i % 10), 48 + ((i \div 10) % 10), 48 + ((i \div 100) % 10)>>
Ints == <<0, 1, -1, 126, 127, 128, 129, -126, -127, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536,
          2147483647, -2147483647, -2147483647 - 1, 305419896>>
Shorts == <<0, 1, -1, 127, 128, -128, 255, 256, 32767, -32768, 4660>>
Longs == <<LE64(0), LE64(1), LE64(-1), LE64(127), LE64(128), LE64(-127), LE64(-128), LE64(-129),
           LE64(2147483647), LE64(-2147483647 - 1), <<0,0,0,128,0,0,0,0>>, <<255,255,255,255,255,255,255,127>>,
           <<0,0,0,0,0,0,0,128>>, <<1,2,3,4,5,6,7,8>>, <<255,0,0,0,0,0,0,0>>, <<128,0,255,255,255,255,255,255>>>>
Floats == <<<<0,0,0,0>>, <<0,0,128,63>>, <<0,0,128,191>>, <<219,15,73,64>>, <<1,0,0,0>>, <<255,255,127,127>>, <<0,0,0,128>>>>
Doubles == <<<<0,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,240,63>>, <<24,45,68,84,251,33,9,64>>, <<1,0,0,0,0,0,0,0>>,
             <<255,255,255,255,255,255,239,127>>, <<0,0,0,0,0,0,0,128>>>>
Smalls == <<0, 1, 2, 127, 128, 255, 1000, 70000>>
Lens == <<0, 1, 2, 3, 7, 16, 40, 127, 128, 129>>
Pick(seq, i) == seq[(i % Len(seq)) + 1]

Val(k, i, sd) ==
  CASE k = "short" -> <<Pick(Shorts, i)>>
    [] k = "int" -> <<Pick(Ints, i)>>
    [] k = "long" -> Pick(Longs, i)
    [] k = "float" -> Pick(Floats, i)
    [] k = "fbyte" -> <<IF i % 256 = 128 THEN 0 ELSE i % 256>>
    [] k = "double" -> Pick(Doubles, i)
    [] k = "str" -> Str(i % 14)
    [] k = "uol" -> <<122, 122, 47, 122>>      \* leads nowhere
    [] k = "vec" -> <<Pick(Ints, i), Pick(Ints, sd)>>
    [] k = "canvas" -> RandBytes(sd, 2 + Pick(Lens, i))
    [] k \in {"sound", "raw", "video"} -> RandBytes(sd, Pick(Lens, i))
    [] k = "unk" -> RandBytes(sd, Pick(Lens, i))
    [] OTHER -> <<>>
EncChoices(sd, f) ==
  [nf |-> f[1], vf |-> f[2], tf |-> f[3], lg |-> (sd \div 3) % 4 = 0, alt |-> (sd \div 5) % 2 = 0,
   pad |-> (sd \div 7) % 4, sd |-> sd, w |-> (sd \div 11) % 300, h |-> (sd \div 13) % 90, fm |-> ((sd \div 17) % 3) + 1,
   sc |-> sd % 5, pg |-> Pick(Smalls, sd \div 23), u1 |-> Pick(Smalls, sd \div 29), ver |-> (sd \div 19) % 3]

Container == {"prop", "canvas", "convex", "raw"}
HasKids(nd) == nd.k \in {"prop", "canvas", "convex"} \/ (nd.k = "raw" /\ nd.x.ver = 1)
Top == stack[Len(stack)]
Used == {Top.c[i].n : i \in 1..Len(Top.c)}
InConvex == Top.k = "convex"
FreeNames == IF InConvex THEN {0} ELSE {i \in Names : NameOf(i) \notin Used}
Addable == IF InConvex THEN Kinds \cap {"vec", "convex", "prop", "uol"} ELSE Kinds
FixPad(nd) == IF nd.k = "sound" THEN [nd EXCEPT !.x.pad = 0] ELSE nd
Mk(k, nm, i, sd, f) ==
  FixPad([n |-> IF InConvex THEN DecName(Len(Top.c)) ELSE nm, k |-> k, v |-> Val(k, i, sd), c |-> <<>>,
          x |-> EncChoices(sd, f)])

Init == /\ stack = <<[n |-> <<>>, k |-> "root", v |-> <<>>, c |-> <<>>, x |-> EncChoices(0, <<"in0","in0","in0">>)]>>
        /\ count = 0 /\ phase = "write" /\ img = [kid |-> "none", off |-> 0, b |-> <<>>]
Chosen(P(_)) ==
  \E k \in One(Addable) : \E ni \in One(FreeNames) : \E i \in One(ValueSets) : \E sd \in (IF Rand THEN {RandomElement(0..60000)} ELSE {0, 140}) :
  \E f \in (IF Rand THEN {<<RandomElement(Forms), RandomElement(Forms), RandomElement({"in73", "in73", "ref1b", "ref1"})>>}
                    ELSE {<<x, y, "in73">> : x \in Forms, y \in Forms}) :
     /\ P(Mk(k, NameOf(ni), i, sd, f))
AddLeaf == /\ phase = "write" /\ count < MaxNodes /\ Addable # {} /\ FreeNames # {}
           /\ Chosen(LAMBDA nd : stack' = [stack EXCEPT ![Len(stack)].c = Append(@, nd)])
           /\ count' = count + 1 /\ UNCHANGED <<phase, img>>
Open == /\ phase = "write" /\ count < MaxNodes /\ Len(stack) <= MaxDepth /\ Addable \cap Container # {} /\ FreeNames # {}
        /\ Chosen(LAMBDA nd : stack' = IF HasKids(nd) THEN Append(stack, nd)
                                      ELSE [stack EXCEPT ![Len(stack)].c = Append(@, nd)])
        /\ count' = count + 1 /\ UNCHANGED <<phase, img>>
Close == /\ phase = "write" /\ Len(stack) > 1
         /\ stack' = [SubSeq(stack, 1, Len(stack) - 1) EXCEPT ![Len(stack) - 1].c = Append(@, Top)]
         /\ UNCHANGED <<count, phase, img>>
Finish == /\ phase = "write" /\ Len(stack) = 1
          /\ Rand => count >= MaxNodes \/ RandomElement(1..MaxNodes) = 1
          /\ \E kid \in One(Kids) : \E off \in One(Offs) :
               img' = [kid |-> kid, off |-> off, b |-> RandBytes(off, off) \o EncImage(kid, Top.c)]
          /\ phase' = "encoded" /\ UNCHANGED <<stack, count>>
Emit == /\ phase = "encoded" /\ phase' = "done"
        /\ Serialize(ToJson([op |-> "image", kid |-> img.kid, off |-> img.off, bytes |-> img.b, tree |-> AbsSeq(Top.c)]) \o "\n",
                     IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ UNCHANGED <<stack, count, img>>
Next == AddLeaf \/ Open \/ Close \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars

\* The reader of the specification recovers exactly the tree written
RoundTrip == phase = "encoded" =>
               LET r == DecImage(img.kid, img.b, img.off)
               IN r.ok /\ r.c = AbsSeq(Top.c) /\ r.p = Len(img.b)
\* every strict prefix is an error for the strict reader (nothing is invented)
PrefixSafe == phase = "encoded" /\ Cuts =>
               \A n \in 0..(Len(img.b) - 1) :
                  LET r == DecImage(img.kid, SubSeq(img.b, 1, n), img.off)
                  IN r.ok => r.c = AbsSeq(Top.c)
=============================================================================
