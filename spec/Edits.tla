-------------------------------- MODULE Edits -------------------------------
(***************************************************************************)
(* Edits of written documents: characters and pieces are deleted,          *)
(* inserted, replaced and doubled, lines are moved, the text is cut short. *)
(* After every edit the text is read again.                                *)
(*   docs   the documents, pieces  the inserted texts                      *)
(*   edits  the number of edits                                            *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
VARIABLES n, text
vars == <<n, text>>
\* all the choices in the exhaustive mode, a random one in the simulation
Pick(S) == IF Conf.all THEN S ELSE {RandomElement(S)}

Init == n = 0 /\ text \in {Conf.docs[i] : i \in 1..Len(Conf.docs)}
Put(i, j, w) == text' = SubSeq(text, 1, i - 1) \o w \o SubSeq(text, j, Len(text))
Delete  == \E i \in Pick(1..Len(text)) : Put(i, i + 1, <<>>)
Replace == \E i \in Pick(1..Len(text)), w \in Pick(1..Len(Conf.pieces)) : Put(i, i + 1, Conf.pieces[w])
InsertP == \E i \in Pick(1..(Len(text) + 1)), w \in Pick(1..Len(Conf.pieces)) : Put(i, i, Conf.pieces[w])
Double  == \E i \in Pick(1..Len(text)) : \E m \in Pick(1..8) :
               i + m - 1 <= Len(text) /\ Put(i, i, SubSeq(text, i, i + m - 1))
Truncate == \E i \in Pick(1..Len(text)) : Put(i, Len(text) + 1, <<>>)
Next == /\ n < Conf.edits /\ n' = n + 1 /\ text # <<>>
        /\ Delete \/ Replace \/ InsertP \/ Double \/ Truncate

Case(cy) == LET r == Load(text, cy)
            IN /\ r.ok \/ r.p \in 0..Len(text)
               /\ PrintT(ToJson([k |-> "load", d |-> text, cy |-> cy, r |-> r]))
Read == /\ Case(FALSE)
        /\ (\E i \in 1..Len(text) : text[i] \in {"&", "*"}) => Case(TRUE)
=============================================================================
