------------------------------ MODULE BigThrough ------------------------------
(* Through on the data of Big. *)
EXTENDS Through, Big

=============================================================================
