--------------------------------- MODULE Equal ------------------------------
(***************************************************************************)
(* Equality of the data: the documents of Events, their copies with        *)
(* another scalar, tag or order somewhere, and the matrix of the equality. *)
(***************************************************************************)
EXTENDS Events, Trees

Last == docs[Len(docs)].root
CanCopy == stack = <<>> /\ docs # <<>> /\ Len(docs) < Conf.docs
NewDoc(r) == docs' = Append(docs, [root |-> r, anc |-> <<>>]) /\ UNCHANGED <<n, stack, anc>>
Vary == /\ CanCopy
        /\ \E k \in Pick(1..Size(Last)), s \in Pick(Scalars) :
              NewDoc(Put(Last, k, Raw(Conf.scalars[s].t, Conf.scalars[s].v, <<>>, <<>>, 1)))
Again == CanCopy /\ \E g \in Pick(Tags) : NewDoc([Last EXCEPT !.tag = Conf.tags[g]])
Order == CanCopy /\ \E k \in Pick(1..Size(Last)) : NewDoc(Turn(Last, k))
ENext == Next \/ Vary \/ Again \/ Order

D == 1..Len(docs)
Roots == [i \in D |-> DataOf(docs[i].root)]
Matrix(R) == [i \in D |-> [j \in D |-> Same(R[i], R[j])]]
\* an equivalence relation
Equivalence(m) == /\ \A i \in D : m[i][i]
                  /\ \A i, j \in D : m[i][j] = m[j][i]
                  /\ \A i, j, k \in D : m[i][j] /\ m[j][k] => m[i][k]
Read == IF ~Complete \/ Len(docs) < 2 \/ ~(Conf.all \/ Len(docs) = Conf.docs) THEN TRUE ELSE
    LET R == TLCEval(Roots)  m == TLCEval(Matrix(R))
    IN /\ Equivalence(m)
       /\ PrintT(ToJson([k |-> "equal", docs |-> R, m |-> m]))
=============================================================================
