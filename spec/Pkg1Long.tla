------------------------------ MODULE Pkg1Long ------------------------------
(* Archives whose list counts up to a hundred thousand entries, nearly all   *)
(* of the kind without a name: counts that need the long integer form, with  *)
(* and without a version header (a count whose low byte is zero looks like   *)
(* one), the named entry first or last.                                      *)
EXTENDS Pkg1Gen
CONSTANT Deep
VARIABLE many
Im == [b |-> EncImage("gms", <<Leaf(<<97>>, "int", <<7>>)>>), tree |-> AbsSeq(<<Leaf(<<97>>, "int", <<7>>)>>)]
Ent == [n |-> Nm(0), t |-> "img", at |-> 1, ck |-> 5, lg |-> FALSE, rf |-> FALSE, wide |-> FALSE]
Run(k) == [i \in 1..(11 * k) |-> IF i % 11 = 1 THEN 1 ELSE (i * 7) % 251]
InitLong == /\ n = 0 /\ goal = 0 /\ phase = "grow"
            /\ \E m \in {255, 256, 512, 8192, 65280} \cup (IF Deep THEN {257, 1024, 4096, 16384, 32512, 32768, 65535, 65536, 70000, 100000} ELSE {}) :
               \E first \in BOOLEAN : \E enc \in (IF m > 65535 THEN {TRUE} ELSE IF m % 512 = 0 \/ Deep THEN BOOLEAN ELSE {FALSE}) :
                 /\ many = [m |-> m, first |-> first]
                 /\ a = [kid |-> "gms", enc |-> enc, fstart |-> 60, ver |-> 776, hash |-> VerHash(776), rev |-> FALSE, dirs |-> <<<<Ent>>>>, imgs |-> <<Im>>, next |-> [c |-> <<>>]]
LongLayout == LET ds == a.fstart + (IF a.enc THEN 2 ELSE 0)
                  c == Len(EncInt(many.m, FALSE))
                  el == EntryLen("gms", Ent, Len(Im.b))
              IN [ds |-> ds, at |-> ds + c + (IF many.first THEN 0 ELSE 11 * (many.m - 1)), ipos |-> <<ds + c + 11 * (many.m - 1) + el>>, lens |-> <<0>>, dpos |-> <<ds>>, refs |-> <<1>>, rpos |-> <<>>]
LongBytes(L) == LET e == PutEntry(a, L, 1, 1, L.at)
                    body == EncInt(many.m, FALSE) \o (IF many.first THEN e \o Run(many.m - 1) ELSE Run(many.m - 1) \o e) \o Im.b
                    v == IF a.enc THEN LE16(EncVerOf(a.hash)) ELSE <<>>
                IN Header(PKG1, Len(v) + Len(body), a.fstart) \o v \o body
Listed(b, L) == RdEntries(b, L.at, a.fstart, 1, <<>>)
Write == /\ phase = "grow"
         /\ \E L \in {LongLayout} : \E b \in {LongBytes(L)} : \E rd \in {Listed(b, L)} :
              /\ Assert(rd.ok /\ HasEncVer(b, a.fstart) = a.enc, "version header presence is ambiguous")
              /\ Assert(WVal(DecOff(rd.es[1].enc, rd.es[1].pos, a.fstart, a.hash)) = L.ipos[1], "offset does not decode")
              /\ EmitCase(Case(b, {Hints(b, rd, o, TRUE) : o \in WayF}, TreeOf(a, L, 1), Fits(b, rd)))
         /\ phase' = "done" /\ UNCHANGED <<a, n, goal, many>>
=============================================================================
