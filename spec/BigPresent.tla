----------------------------- MODULE BigPresent -----------------------------
(* Present on the data of Big. *)
EXTENDS Present, Big
BPInit == BInit /\ lay = <<>> /\ br = 1
BPNext == BNext /\ Relay /\ br' \in Pick(1..Len(Conf.br))
=============================================================================
