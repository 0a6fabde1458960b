------------------------------ MODULE Indicate ------------------------------
(***************************************************************************)
(* The indicated messages: the line of each position of a text.  Lines end *)
(* with "\n", positions out of the text are its end.                       *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils, TLC

Conf == JsonDeserialize(IOEnv.CONF)
Pick(S) == IF Conf.all THEN S ELSE {RandomElement(S)}
VARIABLES n, d
Init == n = 0 /\ d = <<>>
Next == /\ n < Conf.depth /\ n' = n + 1
        /\ \E t \in Pick(1..Len(Conf.alpha)) : d' = d \o Conf.alpha[t]

RECURSIVE Begin(_)
Begin(i) == IF i <= 1 THEN 1 ELSE IF d[i - 1] = "\n" THEN i ELSE Begin(i - 1)
\* the number of the line, its first and its last position
Line(i) == LET b == Begin(Min(i, Len(d) + 1))
           IN [row |-> 1 + Len(SelectSeq(SubSeq(d, 1, b - 1), LAMBDA c : c = "\n")), from |-> b - 1, to |-> SkipOut(d, b, {"\n"}) - 1]
\* the lines are the parts of the text
LinesOk == \A i \in 1..(Len(d) + 1) :
              LET l == Line(i)
              IN /\ l.from <= i - 1 /\ i - 1 <= l.to
                 /\ \A j \in (l.from + 1)..l.to : d[j] # "\n"
                 /\ l.from = 0 \/ d[l.from] = "\n"
                 /\ i > 1 => l.row = Line(i - 1).row + (IF d[i - 1] = "\n" THEN 1 ELSE 0)
Read == /\ Conf.all => LinesOk
        /\ n >= Conf.emit => PrintT(ToJson([k |-> "indicate", d |-> d, at |-> [i \in 1..(Len(d) + 2) |-> Line(i)]]))
=============================================================================
