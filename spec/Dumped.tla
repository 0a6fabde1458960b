------------------------------- MODULE Dumped -------------------------------
(***************************************************************************)
(* The recorded writer: the data ("value"), the tags and the anchors       *)
(* ("tag") are read back from every text, or it is the one of the          *)
(* specification ("text").                                                 *)
(***************************************************************************)
EXTENDS Writer, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Good(c) == LET roots == [j \in 1..Len(c.docs) |-> Unique(c.docs[j])]
               r == Load(c.d, c.want # "value")
           IN IF c.want = "text" THEN c.d = Written(roots) ELSE ReadBack(r, roots, c.want = "tag", c.want = "tag")
Init == i \in 1..8
Next == i + 8 <= Len(Trace) /\ i' = i + 8
Valid == \/ i > Len(Trace) \/ Good(Trace[i])
         \/ PrintT(<<"BAD", i, ToJson(Written([j \in 1..Len(Trace[i].docs) |-> Unique(Trace[i].docs[j])]))>>)
=============================================================================
