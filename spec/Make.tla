--------------------------------- MODULE Make -------------------------------
(* The data of Events, made by the constructors that the styles name. *)
EXTENDS Events
Read == IF ~Complete THEN TRUE
        ELSE PrintT(ToJson([k |-> "make", docs |-> [i \in 1..Len(docs) |-> docs[i].root], x |-> [i \in 1..Len(docs) |-> DataOf(docs[i].root)]]))
=============================================================================
