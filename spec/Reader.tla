------------------------------- MODULE Reader -------------------------------
(* A reader is a byte buffer and a position.  A writer fills the buffer with *)
(* primitives; a client then reads them in order, peeks anywhere, and jumps. *)
(* Every read has the value its bytes encode and moves the position just     *)
(* past them; positioned reads and the target of a reference move nothing.   *)
EXTENDS WzFormat, Json, IOUtils, SequencesExt
CONSTANTS MaxItems, MaxReads, Kids
VARIABLES b, plan, pos, log, phase, kid, base, saved

vars == <<b, plan, pos, log, phase, kid, base, saved>>
Fixed == <<[o |-> "u8", w |-> 1], [o |-> "i8", w |-> 1], [o |-> "u16", w |-> 2], [o |-> "i16", w |-> 2], [o |-> "u32", w |-> 4],
           [o |-> "i32", w |-> 4], [o |-> "u64", w |-> 8], [o |-> "i64", w |-> 8], [o |-> "f32", w |-> 4], [o |-> "f64", w |-> 8]>>
Width(o) == Fixed[CHOOSE i \in 1..Len(Fixed) : Fixed[i].o = o].w
FixedOps == {Fixed[i].o : i \in 1..Len(Fixed)}
PosOps == {o \o "_at" : o \in FixedOps}
StrOps == {"str", "strmeta", "block", "blockmeta"}
DirOps == {"dir", "dirmeta", "dir16meta"}
AllOps == FixedOps \cup StrOps \cup DirOps \cup {"int", "int64"}

\* the second-generation directory name key is 8 bytes, repeated
DirKey == <<239, 190, 190, 173, 173, 222, 222, 0>>     \* of the fixed key 0xDEADBEEF
DecDir(r) == [i \in 1..(Len(r) \div 2) |-> U16(<<r[2*i-1] ^^ DirKey[((2*i-2) % 8) + 1], r[2*i] ^^ DirKey[((2*i-1) % 8) + 1]>>)]
EncDir(u) == [j \in 1..(2 * Len(u)) |->
                LET x == u[(j + 1) \div 2] IN (IF j % 2 = 1 THEN x % 256 ELSE x \div 256) ^^ DirKey[((j - 1) % 8) + 1]]

\* what a read of kind o at position p gives: [ok, v, p]
\* w: the value is text of 16-bit units (else of 8-bit ones)
No == [ok |-> FALSE, v |-> <<>>, p |-> 0, w |-> FALSE]
Read(o, p, bs) ==
  CASE o \in FixedOps -> IF Has(b, p, Width(o)) THEN [ok |-> TRUE, w |-> TRUE, v |-> Sub(b, p, Width(o)), p |-> p + Width(o)] ELSE No
    [] o = "int" -> LET r == DecInt(b, p) IN IF r.ok THEN [ok |-> TRUE, w |-> TRUE, v |-> <<r.v>>, p |-> r.p] ELSE No
    [] o = "int64" -> LET r == DecI64(b, p) IN IF r.ok THEN [ok |-> TRUE, w |-> TRUE, v |-> r.v, p |-> r.p] ELSE No
    [] o = "str" -> LET r == DecStr(kid, b, p) IN IF r.ok THEN [ok |-> TRUE, v |-> r.v, p |-> r.p, w |-> r.wide] ELSE No
    [] o = "block" -> LET r == DecBlock(kid, b, p, bs) IN IF r.ok THEN [ok |-> TRUE, v |-> r.v, p |-> r.p, w |-> r.wide] ELSE No
    \* metadata: <<type, where, byte length>>, nothing more for the empty string
    [] o = "strmeta" -> LET r == DecStr(kid, b, p)
                        IN IF r.ok THEN [ok |-> TRUE, w |-> TRUE, p |-> r.p, v |-> IF r.len = 0 THEN <<0>> ELSE <<IF r.wide THEN 2 ELSE 1, r.at, r.len>>] ELSE No
    [] o = "blockmeta" -> LET r == DecBlock(kid, b, p, bs)
                          IN IF r.ok THEN [ok |-> TRUE, w |-> TRUE, p |-> r.p, v |-> IF r.len = 0 THEN <<0>> ELSE <<IF r.wide THEN 2 ELSE 1, r.at, r.len>>] ELSE No
    [] o \in {"dir", "dirmeta"} ->
         IF ~Has(b, p, 1) THEN No
         ELSE LET l == S8(At(b, p)) IN
              IF l >= 0 THEN [ok |-> TRUE, w |-> TRUE, p |-> p + 1, v |-> IF o = "dir" THEN <<>> ELSE <<0>>]
              ELSE IF ~Has(b, p + 1, -2 * l) THEN No
              ELSE [ok |-> TRUE, w |-> TRUE, p |-> p + 1 - 2 * l, v |-> IF o = "dir" THEN DecDir(Sub(b, p + 1, -2 * l)) ELSE <<3, p + 1, -2 * l>>]
    [] o = "dir16meta" ->
         IF ~Has(b, p, 2) THEN No
         ELSE LET l == I16(Sub(b, p, 2)) IN
              IF l >= 0 THEN [ok |-> TRUE, w |-> TRUE, p |-> p + 2, v |-> <<0>>]
              ELSE IF ~Has(b, p + 2, -2 * l) THEN No
              ELSE [ok |-> TRUE, w |-> TRUE, p |-> p + 2 - 2 * l, v |-> <<3, p + 2, -2 * l>>]

\* ---- writer ----
R(S) == {RandomElement(S)}
IntPool == {0, 1, -1, 5, 126, 127, 128, 129, 255, 256, -126, -127, -128, -129, 32767, -32768, 65535, 2147483647, -2147483647 - 1, 305419896}
LenPool == {0, 1, 2, 3, 5, 62, 63, 64, 65, 125, 126, 127, 128, 129, 130, 200, 255, 256, 300}
NarrowStr(n, sd) == LET r == RandBytes(sd, n) IN [i \in 1..n |-> r[i] % 128]
WideStr(n, sd) == LET r == RandBytes(sd, 2 * n)
                  IN [i \in 1..n |-> LET x == r[2*i-1] + 256 * r[2*i] IN IF x >= 55296 /\ x < 57344 THEN x - 55296 + 12288 ELSE x]
RandStr(sd) == LET n == RandomElement(LenPool) IN IF sd % 2 = 0 THEN NarrowStr(n, sd) ELSE WideStr(n, sd)
Starts == {plan[i].at : i \in {j \in 1..Len(plan) : plan[j].o = "str"}}
Init == /\ \E n \in R({0, 1, 7, 60}) : b = RandBytes(n + 5, n) /\ pos = 0
        /\ plan = <<>> /\ log = <<>> /\ phase = "write" /\ kid \in R(Kids) /\ base \in R({0, IF Len(b) > 3 THEN Len(b) - 3 ELSE 0, Len(b)}) /\ saved = -1
Put(o, bs) == b' = b \o bs /\ plan' = Append(plan, [o |-> o, at |-> Len(b)])
Write ==
  /\ phase = "write" /\ Len(plan) < MaxItems
  /\ \E o \in R(AllOps \cup {"str", "block", "ref", "ref", "refmeta", "blockmeta"}) : \E sd \in R(0..60000) : \E lg \in R(BOOLEAN) : \E n \in R(IntPool) :
     CASE o \in FixedOps -> Put(o, RandBytes(sd, Width(o)))
       [] o = "int" -> Put(o, EncInt(n, lg))
       [] o = "int64" -> Put(o, EncI64(IF sd % 3 = 0 THEN RandBytes(sd, 8) ELSE LE64(n), lg))
       [] o \in {"str", "strmeta"} -> \E s \in {RandStr(sd)} : Put(o, EncStrF(kid, s, sd % 4 = 2, sd % 8 = 5))
       [] o \in {"block", "blockmeta"} -> \E s \in {RandStr(sd)} : \E t \in R({0, 115}) : Put(o, <<t>> \o EncStrF(kid, s, sd % 4 = 2, sd % 8 = 5))
       [] o \in {"ref", "refmeta"} ->
            IF Starts = {} THEN Put("block", <<RandomElement({2, 100, 255})>>)      \* an unknown tag is an empty string
            ELSE \E a \in R(Starts) : \E t \in R({1, 27}) : Put(IF o = "ref" THEN "block" ELSE "blockmeta", <<t>> \o LE32(a - base))
       [] o \in {"dir", "dirmeta"} -> \E k \in R({0, 1, 2, 63, 127, 128}) : Put(o, <<IF k = 0 THEN RandomElement({0, 5}) ELSE 256 - k>> \o EncDir(WideStr(k, sd)))
       [] o = "dir16meta" -> \E k \in R({0, 1, 2, 128, 300}) : Put(o, LE16(-k) \o EncDir(WideStr(k, sd)))
  /\ UNCHANGED <<pos, log, phase, kid, base, saved>>
StartRead == /\ phase = "write" /\ Len(plan) >= MaxItems /\ phase' = "read"
             /\ UNCHANGED <<b, plan, pos, log, kid, base, saved>>

\* ---- client ----
Log(o, a, r) == log' = Append(log, [o |-> o, a |-> a, ok |-> r.ok, v |-> r.v, p |-> pos', w |-> r.w])
Reading == phase = "read" /\ Len(log) < MaxReads
\* read what was written, in order
Aligned == /\ Reading /\ \E j \in 1..5 : \E i \in R(1..Len(plan)) :
                \E r \in {Read(plan[i].o, plan[i].at, base)} :
                  /\ pos' = IF r.ok THEN r.p ELSE plan[i].at
                  /\ Log(plan[i].o, plan[i].at, r)
           /\ saved' = -1
           /\ UNCHANGED <<b, plan, phase, kid, base>>
\* any read close to the end: an error leaves the position unspecified (-1)
NearEnd == /\ Reading /\ \E o \in R(AllOps) : \E q \in R(0..9) : \E r \in {Read(o, IF q > Len(b) THEN 0 ELSE Len(b) - q, base)} :
                /\ pos' = IF r.ok THEN r.p ELSE -1
                /\ Log(o, IF q > Len(b) THEN 0 ELSE Len(b) - q, r)
           /\ saved' = -1
           /\ UNCHANGED <<b, plan, phase, kid, base>>
\* continue from the current position with any read
Onward == /\ Reading /\ pos >= 0
          /\ \E o \in R(AllOps) : \E r \in {Read(o, pos, base)} :
               /\ r.ok /\ pos' = r.p /\ Log(o, -1, r)
          /\ saved' = -1
          /\ UNCHANGED <<b, plan, phase, kid, base>>
\* a positioned read: the position stays
Peek == /\ Reading /\ pos >= 0
        /\ \E j \in 1..2 : \E o \in R(FixedOps) : \E p \in R({RandomElement(0..(Len(b) + 2)), IF Len(b) > 8 THEN Len(b) - RandomElement(0..8) ELSE 0}) : \E r \in {Read(o, p, base)} :
             pos' = pos /\ Log(o \o "_at", p, r)
        /\ UNCHANGED <<b, plan, phase, kid, base, saved>>
PeekStr == /\ Reading /\ pos >= 0 /\ Starts # {}
           \* of a string that is there, or of whatever stands near the end: a failure moves nothing either
           /\ \E o \in R({"str", "strmeta"}) : \E p \in R({RandomElement(Starts), IF Len(b) > 9 THEN Len(b) - RandomElement(0..9) ELSE 0}) : \E r \in {Read(o, p, base)} :
                pos' = pos /\ Log(o \o "_at", p, r)
           /\ saved' = -1
           /\ UNCHANGED <<b, plan, phase, kid, base>>
Skip == /\ Reading /\ pos >= 0 /\ RandomElement(1..3) = 1 /\ \E n \in R({0, 1, 2, 4, 9}) : pos' = pos + n /\ Log("skip", n, [ok |-> TRUE, w |-> TRUE, v |-> <<>>])
        /\ UNCHANGED <<b, plan, phase, kid, base, saved>>
Save == /\ Reading /\ pos >= 0 /\ RandomElement(1..3) = 1 /\ saved' = pos /\ pos' = pos /\ Log("save", 0, [ok |-> TRUE, w |-> TRUE, v |-> <<>>])
        /\ UNCHANGED <<b, plan, phase, kid, base>>
Restore == /\ Reading /\ saved >= 0 /\ pos' = saved /\ Log("restore", 0, [ok |-> TRUE, w |-> TRUE, v |-> <<>>])
           /\ UNCHANGED <<b, plan, phase, kid, base, saved>>
Slice == /\ Reading /\ pos >= 0 /\ RandomElement(1..3) = 1 /\ \E p \in R(0..Len(b)) : \E n \in R(0..20) :
              pos' = pos /\ Log("slice", p, [w |-> TRUE, ok |-> Has(b, p, n), v |-> <<n>> \o (IF Has(b, p, n) THEN Sub(b, p, n) ELSE <<>>)])
         /\ UNCHANGED <<b, plan, phase, kid, base, saved>>
Emit == /\ phase = "read" /\ Len(log) >= MaxReads /\ phase' = "done"
        /\ Serialize(ToJson([op |-> "reader", kid |-> kid, bytes |-> b, base |-> base, log |-> log]) \o "\n",
                     IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ UNCHANGED <<b, plan, pos, log, kid, base, saved>>
Next == Write \/ StartRead \/ Aligned \/ NearEnd \/ Onward \/ Peek \/ PeekStr \/ Skip \/ Save \/ Restore \/ Slice \/ Emit

\* the next item starts where the read of the previous one ends
Tiles == (phase = "read" /\ log = <<>>) =>
  \A i \in 1..Len(plan) : LET r == Read(plan[i].o, plan[i].at, base)
                          IN r.ok /\ r.p = IF i = Len(plan) THEN Len(b) ELSE plan[i + 1].at
=============================================================================
