------------------------------ MODULE BigMake ------------------------------
(* Make on the data of Big. *)
EXTENDS Make, Big

=============================================================================
