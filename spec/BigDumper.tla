------------------------------ MODULE BigDumper ------------------------------
(* Dumper on the data of Big. *)
EXTENDS Dumper, Big

=============================================================================
