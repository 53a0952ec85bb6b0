----------------------------- MODULE CanvasGen ------------------------------
(* Canvases as a writer produces them: pixel data of some format and size,   *)
(* compressed, stored plainly or in encrypted chunks; and damaged ones.      *)
(* `exp` is "image" (exactly `px`), "error", or "either" (an error or some   *)
(* image of the declared size).                                              *)
EXTENDS WzFormat, KeyStreams, Pixels, Emit
CONSTANTS Fmts, Sizes, Exh, WithFaults
VARIABLES ph, c

X0 == [nf |-> "in0", vf |-> "in73", tf |-> "in73", lg |-> FALSE, alt |-> TRUE, pad |-> 0, sd |-> 1, w |-> 1, h |-> 1, fm |-> 1, sc |-> 0, pg |-> 0, u1 |-> 0, ver |-> 1]
One(S) == IF Exh THEN S ELSE R(S)
AllFmts == Formats \cup {4097, 2304, 4100, 7, 0}
SmallSizes == {<<w, h>> : w \in {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20}, h \in {1, 2, 3, 4, 5, 6, 8, 11, 13, 16, 18}}
              \cup {<<16, 16>>, <<32, 16>>, <<16, 32>>, <<48, 16>>, <<33, 1>>, <<1, 65>>, <<130, 2>>, <<3, 90>>}
\* sizes that take more than one row of blocks, more than 255 columns, or output of several buffers
LargeSizes == {<<300, 7>>, <<7, 300>>, <<129, 67>>, <<64, 64>>, <<257, 33>>, <<1, 1030>>, <<1040, 1>>, <<96, 80>>, <<272, 16>>, <<16, 272>>, <<112, 112>>, <<513, 9>>, <<160, 144>>}
ExhSizes == {<<w, h>> : w \in {1, 3, 4, 5, 8}, h \in {1, 4, 6, 9}} \cup {<<16, 16>>, <<32, 16>>, <<16, 32>>}
Fits(f, s) == f = 517 => s[1] % 16 = 0 /\ s[2] % 16 = 0
\* raw pixel bytes: noise, runs, extremes
Raw(kind, sd, n) ==
  CASE kind = "noise" -> RandBytes(sd, n)
    [] kind = "ff" -> [i \in 1..n |-> 255]
    [] kind = "ramp" -> [i \in 1..n |-> (i + sd) % 256]
    [] OTHER -> [i \in 1..n |-> <<0, 255, 128, 127, 1, 254, sd % 256, 240>>[(Mix(sd, i) % 8) + 1]]
\* BC7 blocks of the modes 4, 5 and 6
FixModes(d, sd) == [i \in 1..Len(d) |-> IF i % 16 # 1 THEN d[i]
                                        ELSE LET m == 4 + ((Mix(sd, i) \div 3) % 3) IN (d[i] \div (2^(m + 1))) * 2^(m + 1) + 2^m]
RawFor(f, w, h, kind, sd) == LET r == Raw(kind, sd, Need(f, w, h)) IN IF f = 4098 THEN FixModes(r, sd) ELSE r
\* chunks: length and encrypted bytes, the key stream starting anew in each
Enc(kid, d) == [i \in 1..Len(d) |-> d[i] ^^ K(kid, i - 1)]
RECURSIVE Chunks(_, _, _)
Chunks(kid, d, ns) ==
  IF d = <<>> THEN <<>>
  ELSE LET k == IF Len(ns) = 0 \/ Head(ns) >= Len(d) THEN Len(d) ELSE Head(ns)
       IN LE32(k) \o Enc(kid, SubSeq(d, 1, k)) \o Chunks(kid, SubSeq(d, k + 1, Len(d)), IF ns = <<>> THEN <<>> ELSE Tail(ns))

Init == ph = "fmt" /\ c = [f |-> 0]
ChooseFormat == /\ ph = "fmt"
                /\ \E f \in One(Fmts) : \E s \in One({x \in Sizes : Fits(f, x)}) : \E kind \in One({"noise", "ramp"} \cup IF Exh THEN {} ELSE {"ff", "mix"}) :
                   \E sd \in (IF Exh THEN {77} ELSE R(0..60000)) : \E pg \in (IF Exh THEN {0} ELSE R({0, 0, 1, 3})) : \E lg \in (IF Exh THEN {0} ELSE R({0, 0, 1, 4, 60})) :
                      c' = [f |-> f, w |-> s[1], h |-> s[2], kind |-> kind, sd |-> sd, pg |-> pg, off |-> lg]
                /\ ph' = "zip"
ChooseZip == /\ ph = "zip"
             /\ \E fx \in (IF Exh \/ Need(IF c.f \in Formats THEN c.f ELSE 2, c.w, c.h) > 150 THEN {FALSE} ELSE R(BOOLEAN)) : \E fl \in (IF Exh THEN {156} ELSE R({156, 218, 1, 94})) :
                \E n \in (IF Exh THEN {65535} ELSE R({65535, 65535, 100, 400, 33})) : \E di \in (IF Exh THEN {1} ELSE R({1, 2, 4})) :
                \E kid \in One(IF ~Exh /\ (c.w * c.h > 1000) THEN {"none", "affine"} ELSE {"none", "gms", "affine"} \cup IF Exh THEN {} ELSE {"custom"}) : \E ch \in One(BOOLEAN) :
                \E ns \in (IF Exh THEN {<<13>>} ELSE {[i \in 1..RandomElement(0..4) |-> RandomElement({0, 1, 2, 3, 5, 7, 16, 17, 40, 100, 376, 376, 500})]}) :
                  c' = c @@ [how |-> [fixed |-> fx, flg |-> fl, n |-> n, dist |-> di], kid |-> kid, chunked |-> ch,
                             ns |-> IF kid \in {"gms", "custom"} THEN ns \o <<500, 700, 300, 700, 500, 500, 500>> ELSE ns]
             /\ ph' = "fault"
Fault == /\ ph = "fault"
         /\ \E ft \in (IF WithFaults THEN R({"none", "none", "none", "none", "none", "long", "short", "short1", "cut", "cut", "flip", "hdr", "big", "zero", "chunk", "other"}) ELSE {"none"}) :
              c' = c @@ [ft |-> ft]
         /\ ph' = "write"
MaxInt == 2147483647
BigSizes == {<<65535, 65535>>, <<MaxInt, MaxInt>>, <<-1, -1>>, <<65536, 65536>>, <<1, 70000>>, <<MaxInt, 1>>, <<-1, 1>>, <<3, -2>>, <<1073741824, 4>>, <<65536, 32768>>, <<46341, 92682>>}
Put == /\ ph = "write"
       /\ \E raw0 \in {RawFor(IF c.f \in Formats THEN c.f ELSE 2, c.w, c.h, c.kind, c.sd)} :
          \E cutn \in R(0..9999) : \E big \in R(BigSizes) : \E fb \in R(0..255) : \E junk \in R(0..60000) :
          LET raw == CASE c.ft = "long" -> raw0 \o RandBytes(c.sd + 5, 1 + (cutn % 40))
                       [] c.ft = "short" -> SubSeq(raw0, 1, (cutn * 7) % Len(raw0))
                       [] c.ft = "short1" -> SubSeq(raw0, 1, Len(raw0) - 1)
                       [] OTHER -> raw0
              z == TLCEval(Zlib(raw, c.how))
              p0 == TLCEval(IF c.chunked THEN Chunks(c.kid, z, c.ns) ELSE z)
              cut == IF cutn % 3 = 0 THEN Len(p0) - ((cutn \div 3) % 16) ELSE 2 + (cutn % (Len(p0) - 1))
              fl == 1 + (cutn % Len(p0))
              pay == CASE c.ft = "cut" -> SubSeq(p0, 1, IF cut < 2 THEN 2 ELSE cut)
                       [] c.ft = "flip" -> [p0 EXCEPT ![fl] = fb]
                       [] c.ft = "hdr" -> <<255, 255, 255, 127>> \o RandBytes(c.sd, cutn % 60)
                       \* the length of the last chunk goes past the canvas, into what follows it
                       [] c.ft = "chunk" -> IF c.chunked THEN LET a == Chunks(c.kid, SubSeq(z, 1, Len(z) - 12), <<>>) IN Patch32(a, 1, Len(z)) ELSE <<0, 1>> \o SubSeq(p0, 3, Len(p0))
                       [] OTHER -> p0
              sz == CASE c.ft = "big" -> big [] c.ft = "zero" -> <<IF cutn % 2 = 0 THEN 0 ELSE c.w, IF cutn % 3 # 1 THEN 0 ELSE c.h>> [] OTHER -> <<c.w, c.h>>
              ff == IF c.ft = "other" THEN 40000 ELSE c.f
              exp == CASE ff \notin Formats \/ c.ft \in {"short", "short1", "hdr", "big"} -> "error"
                       [] c.ft = "cut" -> IF Len(pay) <= Len(p0) - 12 THEN "error" ELSE "either"
                       [] c.ft = "chunk" -> "error"
                       [] c.ft \in {"flip", "zero"} -> "either"
                       [] OTHER -> "image"
              sc == IF cutn % 3 = 0 THEN 0 ELSE IF cutn % 3 = 1 THEN 1 ELSE 4
              fm == IF ff > sc THEN ff - sc ELSE ff
              x == [X0 EXCEPT !.w = sz[1], !.h = sz[2], !.fm = fm, !.sc = IF ff > sc THEN sc ELSE 0, !.pg = c.pg, !.u1 = c.sd % 3, !.sd = c.sd, !.lg = cutn % 5 = 0]
              N(n, k, v, xx, kids) == [n |-> n, k |-> k, v |-> v, c |-> kids, x |-> xx]
              filler == <<N(<<122>>, "str", IF c.ft = "chunk" THEN SubSeq(z, Len(z) - 11, Len(z)) ELSE <<97>>, X0, <<>>), N(<<121>>, "raw", RandBytes(c.sd, 30), X0, <<>>)>>
              tree == <<N(<<98>>, "int", <<5>>, X0, <<>>), N(<<99>>, "canvas", pay, x, IF cutn % 4 = 0 THEN <<N(<<111>>, "vec", <<1, 2>>, X0, <<>>)>> ELSE <<>>)>> \o filler
          IN EmitCase([op |-> "canvas", kid |-> c.kid, off |-> c.off, bytes |-> RandBytes(c.off, c.off) \o EncImage(c.kid, tree), note |-> c.ft,
                       exp |-> exp, w |-> sz[1], h |-> sz[2], deep |-> ff = 769,
                       px |-> IF exp = "image" THEN FlattenSeq(Image(ff, raw, sz[1], sz[2])) ELSE <<>>])
       /\ ph' = "done" /\ UNCHANGED c
Next == ChooseFormat \/ ChooseZip \/ Fault \/ Put
=============================================================================
