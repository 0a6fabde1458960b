------------------------------ MODULE Validate ------------------------------
EXTENDS Loader, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Good(c) == LET r == Load(c.d, c.cy)
           IN IF c.r.ok
              THEN /\ r.ok /\ [j \in 1..Len(r.docs) |-> Shown(r.docs[j])] = c.r.docs
                   /\ Len(r.anc) = Len(c.r.anc)
                   /\ \A j \in 1..Len(r.anc) : { <<r.anc[j][k][1], Shown(r.anc[j][k][2])>> : k \in 1..Len(r.anc[j]) } = { c.r.anc[j][k] : k \in 1..Len(c.r.anc[j]) }
              ELSE r = c.r
Init == i \in 1..8
Next == i + 8 <= Len(Trace) /\ i' = i + 8
Valid == i > Len(Trace) \/ Good(Trace[i]) \/ PrintT(<<"BAD", i, ToJson(Load(Trace[i].d, Trace[i].cy))>>)
=============================================================================
