------------------------------- MODULE Scripts ------------------------------
(* Images that are no property list: Lua scripts, .txt files, '#Property'    *)
(* text; what their bytes and name make of them, or that they are refused.   *)
EXTENDS WzFormat, KeyLong, Emit, SequencesExt
CONSTANTS Lens
VARIABLES ph, im

\* ---- UTF-8 ----
Utf8(cp) == CASE cp < 128 -> <<cp>>
              [] cp < 2048 -> <<192 + cp \div 64, 128 + (cp % 64)>>
              [] cp < 65536 -> <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
              [] OTHER -> <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
Cont(b) == b >= 128 /\ b < 192
\* one step of a validator: <<bytes still expected, lowest and highest allowed next byte>>, or <<-1>>
VStep(st, b) ==
  IF st[1] = -1 THEN st
  ELSE IF st[1] = 0
  THEN CASE b < 128 -> <<0, 128, 191>>
         [] b >= 194 /\ b <= 223 -> <<1, 128, 191>>
         [] b = 224 -> <<2, 160, 191>>
         [] b = 237 -> <<2, 128, 159>>
         [] b >= 225 /\ b <= 239 -> <<2, 128, 191>>
         [] b = 240 -> <<3, 144, 191>>
         [] b >= 241 /\ b <= 243 -> <<3, 128, 191>>
         [] b = 244 -> <<3, 128, 143>>
         [] OTHER -> <<-1, 0, 0>>
  ELSE IF b >= st[2] /\ b <= st[3] THEN <<st[1] - 1, 128, 191>> ELSE <<-1, 0, 0>>
VEnd(d) == FoldLeft(VStep, <<0, 128, 191>>, d)[1]
Valid(d) == VEnd(d) = 0
StartOk(d) == VEnd(d) # -1          \* valid, or cut inside its last character

KeyIds == {"none", "gms", "ems"}
Crypt(k, d) == [i \in 1..Len(d) |-> d[i] ^^ K(k, i - 1)]
\* what a script can be: the text under every key that gives one
Texts(enc) == {Crypt(k, enc) : k \in {x \in KeyIds : Valid(Crypt(x, enc))}}
Head64(d) == IF Len(d) > 64 THEN SubSeq(d, 1, 64) ELSE d
\* keys under which the beginning already looks like text; the end of it may cut a character, the end of the script may not
Plausible(enc) == {k \in KeyIds : IF Len(enc) <= 64 THEN Valid(Crypt(k, enc)) ELSE StartOk(Crypt(k, Head64(enc)))}

\* ---- texts ----
Cp(sd, i, mix) == LET m == Mix(sd, i) IN
  CASE mix = 0 -> 32 + (m % 95) [] mix = 1 -> IF m % 5 = 0 THEN 44032 + (m * 40) ELSE 97 + (m % 26)
    [] mix = 2 -> 19968 + (m * 80) [] mix = 3 -> IF m % 3 = 0 THEN 128512 + (m % 70) ELSE 10 + (m % 110) [] OTHER -> IF m % 4 = 0 THEN 192 + m ELSE 48 + (m % 10)
\* n bytes of text: characters while they fit, then dots
RECURSIVE Fill(_, _, _, _, _)
Fill(acc, sd, i, mix, n) == LET c == Utf8(Cp(sd, i, mix)) IN IF Len(acc) + Len(c) > n THEN acc \o [j \in 1..(n - Len(acc)) |-> 46] ELSE Fill(acc \o c, sd, i + 1, mix, n)
Text(sd, mix, n) == IF mix = 0 THEN [i \in 1..n |-> 32 + (Mix(sd, i) % 95)]
                    ELSE IF n > 600 THEN Fill(<<>>, sd, 1, mix, 400) \o [i \in 1..(n - 400) |-> 32 + (Mix(sd, i) % 95)]
                    ELSE Fill(<<>>, sd, 1, mix, n)

Init == ph = "go" /\ im = <<>>
sTxt == <<46, 116, 120, 116>>  sLua == <<46, 108, 117, 97>>  sImg == <<46, 105, 109, 103>>
Base0 == <<110, 101, 119>>
Magic == <<35, 80, 114, 111, 112, 101, 114, 116, 121>>
\* form, name, bytes of the image, what to expect
Lua(k, txt, lg) == <<1>> \o EncInt(Len(txt), lg) \o Crypt(k, txt)
\* bad keys too: a script of a custom key is text under none of the three
CaseOf(nm, b, size, after, kid, want, body) ==
  EmitCase([op |-> "script", kid |-> kid, name |-> nm, off |-> im.off, size |-> size, bytes |-> RandBytes(im.off, im.off) \o b \o after, want |-> want, body |-> body])
Case(nm, b, after, kid, want, body) == CaseOf(nm, b, Len(b), after, kid, want, body)
Choose == /\ ph = "go"
          /\ \E form \in R({"lua", "lua", "lua", "lua", "txt", "txt", "pack", "pack", "other", "luaname", "custom", "cut", "short", "over"}) : \E n \in R(Lens) : \E sd \in R(0..60000) :
             \E mix \in R(0..4) : \E k \in R(KeyIds) : \E o \in R({0, 0, 1, 9, 77}) : \E lg \in R(BOOLEAN) : \E a \in R(0..2) : \E t \in {Text(sd, mix, n)} :
               im' = [form |-> form, n |-> n, sd |-> sd, k |-> k, off |-> o, lg |-> lg, t |-> t, after |-> IF a = 0 THEN <<>> ELSE RandBytes(sd + 1, a * 40)]
          /\ ph' = "put"
LuaWant(enc) == LET p == Plausible(enc) IN
  IF Cardinality(p) = 1 /\ Valid(Crypt(CHOOSE k \in p : TRUE, enc)) THEN "lua" ELSE IF p = {} THEN "nolua" ELSE "anylua"
Put == /\ ph = "put"
       /\ LET f == im.form
              lb == Lua(im.k, im.t, im.lg)
              lead == IF im.sd % 3 = 0 THEN <<>> ELSE Base0
          IN CASE f = "lua" -> Case(lead \o sLua, lb, im.after, "none", LuaWant(Crypt(im.k, im.t)), im.t)
               [] f = "luaname" -> Case(Base0 \o sImg, lb, im.after, "none", "refuse", <<>>)
               [] f = "custom" -> LET e == Crypt("custom", im.t) w == LuaWant(e) IN Case(Base0 \o sLua, <<1>> \o EncInt(Len(e), im.lg) \o e, im.after, "none", IF w = "lua" THEN "anylua" ELSE w, <<>>)
               [] f = "txt" -> Case(lead \o sTxt, im.t, im.after, "none", "text", im.t)
               [] f = "pack" -> Case(IF im.sd % 2 = 0 THEN Base0 \o sImg ELSE Base0 \o sLua, Magic \o im.t, im.after, "none", "text", im.t)
               [] f = "other" -> \E b \in {x \in R(0..255) : x \notin {1, 35, 115}} : Case(Base0 \o sImg, <<b>> \o im.t, im.after, "none", "refuse", <<>>)
               \* '#' but not '#Property'
               [] f = "short" -> \E j \in R(1..9) : \E cut \in R(BOOLEAN) :
                     LET b == IF cut THEN SubSeq(Magic, 1, j - 1) ELSE [Magic EXCEPT ![j] = (@ + 1) % 256] \o im.t
                     IN (j > 1 \/ ~cut) /\ (cut \/ j > 1) /\ Case(Base0 \o sImg, b, IF cut THEN <<>> ELSE im.after, "none", "refuse", <<>>)
               \* a text that is not all there
               [] f = "over" -> \E j \in R({1, 2, 8, 9, 100, 70000}) : \E pk \in R(BOOLEAN) :
                     LET b == IF pk THEN Magic \o im.t ELSE im.t IN im.off + Len(b) > 0 /\ CaseOf(IF pk THEN Base0 \o sImg ELSE lead \o sTxt, b, Len(b) + j, <<>>, "none", "refuse", <<>>)
               \* a script that is not all there
               [] OTHER -> Case(Base0 \o sLua, <<1>> \o EncInt(IF im.sd % 2 = 0 THEN Len(im.t) + 1 + im.sd ELSE -1 - im.sd, im.lg) \o im.t, <<>>, "none", "nolua", <<>>)
       /\ ph' = "done" /\ UNCHANGED im
Next == Choose \/ Put
ShortLens == {0, 1, 2, 3, 4, 5, 6, 8, 20, 62, 63, 64, 65, 66, 67, 126, 127, 128, 129, 200, 300}
LongLens == {4094, 4095, 4096, 4097, 4100, 4500}
\* what is encoded is valid UTF-8
TextOk == ph = "put" => Valid(im.t) /\ Len(im.t) = im.n
=============================================================================
