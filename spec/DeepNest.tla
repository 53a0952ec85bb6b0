------------------------------ MODULE DeepNest ------------------------------
(* An image of properties nested as deep as the format allows one to write.  *)
EXTENDS WzFormat, Emit, SequencesExt
CONSTANTS Levels
VARIABLES ph
Str(u) == EncStrF("none", u, FALSE, FALSE)
\* an entry "a" of a list: a property with the list of bytes l in it
In(l) == LET body == <<115>> \o Str(sProperty) \o <<0, 0>> \o l IN <<1, 0>> \o Str(<<97>>) \o <<9>> \o LE32(Len(body)) \o body
Lists(k) == FoldLeft(LAMBDA acc, i : TLCEval(In(acc)), <<0>>, [i \in 1..k |-> i])
Nest(k) == <<115>> \o Str(sProperty) \o <<0, 0>> \o Lists(k)
Depths == {30, Levels}
Init == ph = 0
Next == /\ ph = 0 /\ ph' = 1
        /\ \A k \in Depths : EmitCase([op |-> "deep", levels |-> k, bytes |-> Nest(k)])
=============================================================================
