------------------------------- MODULE LockNet ------------------------------
(* Can recorded operations block one another for ever?  ev: what operations  *)
(* of the real code were seen to hold while they wait for a lock.  A chain   *)
(* of threads, each blocked by the next: the owner of what it waits for, or  *)
(* (for a reader) a writer that is waiting for the same lock.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxLen
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES r, ch
Ev(i) == Recs[r].ev[i]
Held(e) == {e.held[k] : k \in 1..Len(e.held)}
Blocks(e, f) == (\E h \in Held(f) : h[1] = e.want /\ (e.write \/ h[2])) \/ (~e.write /\ f.write /\ f.want = e.want)
Together(e, f) == \A h \in Held(e) : \A g \in Held(f) : h[1] = g[1] => ~h[2] /\ ~g[2]
\* a chain starts with one that is not of the known kind, and that has something others need
Init == \E k \in 1..Len(Recs) : r = k /\ \E i \in 1..Len(Recs[k].ev) : ~Recs[k].ev[i].known /\ ch = <<i>>
Last == Ev(ch[Len(ch)])
Closed == Blocks(Last, Ev(ch[1])) /\ Ev(ch[1]).held # <<>>
Next == /\ Len(ch) < MaxLen /\ ~Closed
        /\ \E i \in 1..Len(Recs[r].ev) : /\ Blocks(Last, Ev(i)) /\ \A k \in 1..Len(ch) : Together(Ev(ch[k]), Ev(i))
                                         /\ ch' = Append(ch, i)
        /\ r' = r
Idle == UNCHANGED <<r, ch>>
Show(e) == <<e.ops, "holding", [k \in 1..Len(e.held) |-> <<Recs[r].names[e.held[k][1] + 1], IF e.held[k][2] THEN "w" ELSE "r">>], IF e.write THEN "waits to write" ELSE "waits to read", Recs[r].names[e.want + 1]>>
NoCycle == IF Closed THEN PrintT(<<"CYCLE", r, ch>>) /\ PrintT(<<"WHO", [k \in 1..Len(ch) |-> Show(Ev(ch[k]))]>>) /\ FALSE ELSE TRUE
=============================================================================
