------------------------------ MODULE BigEqual ------------------------------
(* Equal on the data of Big. *)
EXTENDS Equal, Big
\* of another number of repetitions, conf.more are the differences
Other == /\ ~Grown /\ Len(Conf.more) > 0
         /\ \E p \in 1..Len(Conf.patterns), k \in Conf.from..Conf.to, m \in 1..Len(Conf.more) :
               docs' = DocsOf(p, k, 0) \o DocsOf(p, k + Conf.more[m], 0) /\ n' = k
         /\ UNCHANGED <<stack, anc>>
BENext == BNext \/ Other \/ Vary \/ Again \/ Order
=============================================================================
