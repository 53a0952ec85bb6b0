---------------------------- MODULE ImageLookup ----------------------------
(* Navigation in an image: which node a path of names denotes.               *)
(* The generator writes an image (ImageGen) and asks for every existing path *)
(* and for absent ones built from them.                                      *)
EXTENDS ImageGen

RECURSIVE Find(_, _, _)
\* the node a non-empty path denotes in a list of abstract nodes: <<>> or <<node>>
Find(c, path, i) ==
  LET hits == {j \in 1..Len(c) : c[j].n = path[i]}
  IN IF hits = {} THEN <<>>
     ELSE LET nd == c[CHOOSE j \in hits : TRUE]
          IN IF i = Len(path) THEN <<nd>> ELSE Find(nd.c, path, i + 1)
Lookup(c, path) == Find(c, path, 1)

RECURSIVE PathsOf(_, _)
PathsOf(c, pre) == UNION {{Append(pre, c[i].n)} \cup PathsOf(c[i].c, Append(pre, c[i].n)) : i \in 1..Len(c)}
AllNames(ps) == {p[Len(p)] : p \in ps}
nope == <<110, 111, 112, 101>>
Butlast(p) == SubSeq(p, 1, Len(p) - 1)
Absent(ps) ==
  {Append(p, nope) : p \in ps} \cup {Append(Butlast(p), nope) : p \in ps}
    \cup {Append(p, p[Len(p)]) : p \in ps} \cup {Tail(p) : p \in {q \in ps : Len(q) > 1}}
    \cup {<<p[1]>> \o p : p \in ps} \cup {<<p[1]>> \o SubSeq(p, 3, Len(p)) : p \in {q \in ps : Len(q) > 2}}
    \cup {<<nope>>}
    \cup {Append(Append(p, <<>>), nope) : p \in ps}       \* an empty component
    \cup {SubSeq(p, 1, Len(p) - 1) \o <<Append(p[Len(p)], 97)>> : p \in ps}
Queries(c) == LET ps == PathsOf(c, <<>>) IN ps \cup Absent(ps)

EmitDirect ==
  /\ phase = "encoded" /\ phase' = "done"
  /\ LET t == TLCEval(AbsSeq(Top.c))
         qs == TLCEval(Queries(t))
     IN Serialize(ToJson([op |-> "direct", kid |-> img.kid, off |-> img.off, bytes |-> img.b,
                          paths |-> SetToSeq({[p |-> q, r |-> Lookup(t, q)] : q \in qs})]) \o "\n",
                  IOEnv.OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
  /\ UNCHANGED <<stack, count, img>>
NextDirect == AddLeaf \/ Open \/ Close \/ Finish \/ EmitDirect

\* looking up is navigation: a path denotes a node iff every prefix does and
\* the last name is an entry of the node before it
LookupSound == phase = "encoded" =>
  LET t == AbsSeq(Top.c)
      ps == PathsOf(t, <<>>)
  IN \A q \in Queries(t) :
       /\ (q \in ps) <=> (Lookup(t, q) # <<>>)
       /\ q \in ps => Lookup(t, q)[1].n = q[Len(q)]
       /\ (q \in ps /\ Len(q) > 1) => /\ Butlast(q) \in ps
                                      /\ \E i \in 1..Len(Lookup(t, Butlast(q))[1].c) : Lookup(t, Butlast(q))[1].c[i] = Lookup(t, q)[1]
=============================================================================
