------------------------------- MODULE Sounds -------------------------------
(* Payload properties: sounds with every kind of header, raw data, videos.   *)
(* An image of several of them is written; each must come out byte-exact.    *)
EXTENDS WzFormat, KeyStreams, Emit, SequencesExt
CONSTANTS MaxItems, Exh
VARIABLES ph, items, kid, off

X0 == [nf |-> "in0", vf |-> "in73", tf |-> "in73", lg |-> FALSE, alt |-> TRUE, pad |-> 0, sd |-> 1, w |-> 1, h |-> 1, fm |-> 1, sc |-> 0, pg |-> 0, u1 |-> 0, ver |-> 1, hd |-> <<>>]
One(S) == IF Exh THEN S ELSE R(S)
\* ---- the header of a sound decides what it is ----
Freq(hd) == IF Len(hd) <= 60 THEN -1 ELSE I32(SubSeq(hd, 57, 60))
SoundType(hd, size, dur) == IF Len(hd) # 70 THEN "mp3" ELSE IF Freq(hd) = size /\ dur = 1000 THEN "bin" ELSE "wav"
Wave(hd, d) == <<82, 73, 70, 70>> \o LE32(Len(d) + 36) \o <<87, 65, 86, 69, 102, 109, 116, 32, 16, 0, 0, 0>> \o SubSeq(hd, 53, 68)
               \o <<100, 97, 116, 97>> \o LE32(Len(d)) \o d
Plain(sd, n) == RandBytes(sd + 3, n)
\* a 70 byte header that states frequency f
Stating(sd, f) == LET h == Plain(sd, 70) IN SubSeq(h, 1, 56) \o LE32(f) \o SubSeq(h, 61, 70)
Sizes == {0, 1, 2, 7, 44, 126, 127, 128, 129, 255, 256, 300, 1000}
BigSizes == {32768, 40000, 65535, 65536, 70001}
HeadLens == {0, 1, 51, 59, 60, 61, 68, 69, 70, 71, 82, 140}
\* what a payload begins with: nothing special, or what other files begin with
Magics == <<<<>>, <<82, 73, 70, 70>>, <<82, 73, 70, 70, 36, 0, 0, 0, 87, 65, 86, 69, 102, 109, 116, 32>>, <<255, 251, 144, 0>>, <<73, 68, 51, 3>>, <<79, 103, 103, 83>>,
            <<0, 0, 0, 0, 0, 0, 0, 0>>, <<120, 156, 3, 0>>, <<77, 67, 86, 48>>, <<115, 8, 80, 114, 111, 112>>, [i \in 1..1000 |-> 0], [i \in 1..1000 |-> 255]>>
Body(sd, n, m) == LET b == Magics[m] \o RandBytes(sd, n) IN SubSeq(b, 1, n)
Openings(n) == IF Exh THEN (IF n \in {7, 128} THEN 1..Len(Magics) ELSE {1}) ELSE R({1, RandomElement(1..Len(Magics))})
Item(k, sd, d, hd, dur) == [k |-> k, sd |-> sd, d |-> d, hd |-> hd, dur |-> dur]
Init == ph = "add" /\ items = <<>> /\ kid = "none" /\ off = 0
AddSound == \E n \in One(Sizes) : \E sd \in (IF Exh THEN {3} ELSE R(0..60000)) :
            \E hd \in One({Stating(sd, n), Stating(sd, n + 1), Stating(sd, n + 65536), Plain(sd, 70), [i \in 1..70 |-> 0]} \cup {Plain(sd, l) : l \in HeadLens}) :
            \E dur \in One({0, 1000, 999, 127, 128, 66536}) : \E m \in Openings(n) :
              items' = Append(items, Item("sound", sd, Body(sd, n, m), hd, dur))
AddBlob == \E k \in One({"raw", "video"}) : \E n \in One(Sizes) : \E sd \in (IF Exh THEN {5} ELSE R(0..60000)) :
            \E m \in Openings(n) : items' = Append(items, Item(k, sd, Body(sd, n, m), <<>>, 0))
Add == /\ ph = "add" /\ Len(items) < MaxItems
       /\ IF Exh \/ RandomElement(0..9) > 3 THEN (AddSound \/ (Exh /\ AddBlob)) ELSE AddBlob
       /\ UNCHANGED <<ph, kid, off>>
Pack == /\ ph = "add" /\ items # <<>> /\ (Exh \/ Len(items) = MaxItems \/ RandomElement(0..3) = 0)
        /\ \E k \in One({"none"} \cup IF Exh THEN {} ELSE {"gms", "affine"}) : \E o \in One({0} \cup IF Exh THEN {} ELSE {1, 61}) : kid' = k /\ off' = o
        /\ ph' = "write" /\ UNCHANGED items
N(n, k, v, x, c) == [n |-> n, k |-> k, v |-> v, c |-> c, x |-> x]
\* odd items inside a sub-property, every third in a canvas; a value after each
Leaf(i) == N(<<97, 48 + i>>, items[i].k, items[i].d,
             [X0 EXCEPT !.w = items[i].dur, !.hd = items[i].hd, !.lg = (items[i].sd % 3 = 0), !.sd = items[i].sd, !.ver = items[i].sd % 2],
             IF items[i].k = "raw" /\ items[i].sd % 4 = 1 THEN <<N(<<107>>, "int", <<i>>, X0, <<>>)>> ELSE <<>>)
Where(i) == CASE i % 3 = 0 -> <<<<99, 48 + i>>, <<97, 48 + i>>>> [] i % 3 = 1 -> <<<<97, 48 + i>>>> [] OTHER -> <<<<112, 48 + i>>, <<97, 48 + i>>>>
Top(i) == CASE i % 3 = 0 -> N(<<99, 48 + i>>, "canvas", <<120, 156, 3, 0>>, X0, <<Leaf(i)>>)
            [] i % 3 = 1 -> Leaf(i)
            [] OTHER -> N(<<112, 48 + i>>, "prop", <<>>, X0, <<Leaf(i), N(<<122>>, "short", <<i>>, X0, <<>>)>>)
Tree == FlattenSeq([i \in 1..Len(items) |-> <<Top(i), N(<<110, 48 + i>>, "int", <<i>>, X0, <<>>)>>])
Expect(i) ==
  LET e == items[i]  t == IF e.k = "sound" THEN SoundType(e.hd, Len(e.d), e.dur) ELSE e.k
  IN [p |-> Where(i), t |-> t, dur |-> e.dur, buf |-> IF t = "wav" THEN Wave(e.hd, e.d) ELSE e.d]
EmitIt == /\ ph = "write"
          /\ EmitCase([op |-> "sound", kid |-> kid, off |-> off, bytes |-> RandBytes(off, off) \o EncImage(kid, Tree),
                       want |-> [i \in 1..Len(items) |-> Expect(i)]])
          /\ ph' = "done" /\ UNCHANGED <<items, kid, off>>
Next == Add \/ Pack \/ EmitIt
\* a WAVE file states its own lengths
WaveSane == ph = "write" => \A i \in 1..Len(items) :
   LET x == Expect(i) IN x.t = "wav" => /\ I32(SubSeq(x.buf, 5, 8)) = Len(x.buf) - 8 /\ I32(SubSeq(x.buf, 41, 44)) = Len(x.buf) - 44
                                        /\ SubSeq(x.buf, 45, Len(x.buf)) = items[i].d
=============================================================================
