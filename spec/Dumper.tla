-------------------------------- MODULE Dumper ------------------------------
(***************************************************************************)
(* The writer of the documents of Events, and what has to be read back.    *)
(*   want  "value": the data, "tag": the tags, anchors and aliases,        *)
(*         "text": the layout                                              *)
(***************************************************************************)
EXTENDS Events, Writer

Wrong(d, r) == PrintT("WRONG " \o ToJson([d |-> d, r |-> r])) /\ FALSE
\* the first of the names of a node is written, the others are the same
\* with an ending
Also == IF Conf.want = "value" THEN <<>> ELSE << <<"-", "z", "9">>, <<"-", "z", "z">> >>
Case(d, roots) == PrintT(ToJson([k |-> "dump", want |-> Conf.want, d |-> d, docs |-> roots, also |-> Also]))
Read == IF ~Complete THEN TRUE ELSE
    LET roots == [i \in 1..Len(docs) |-> Unique(docs[i].root)]
        d == Written(roots)
        cy == Conf.want # "value"
        r == Load(d, cy)
    IN /\ ReadBack(r, roots, cy, Conf.want = "tag") \/ Wrong(d, r)
       /\ Case(d, roots)
=============================================================================
