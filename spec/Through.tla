-------------------------------- MODULE Through -----------------------------
(***************************************************************************)
(* Nodes through serde: the data of Events, read from and written to this  *)
(* crate and other self-describing formats.                                *)
(***************************************************************************)
EXTENDS Events, Serde

RECURSIVE Place(_, _), PlaceAll(_, _, _)
PlaceAll(v, i, p) == IF i > Len(v) THEN <<>> ELSE <<Place(v[i], p)>> \o PlaceAll(v, i + 1, p + Size(v[i]))
Place(x, p) == [t |-> x.t, tag |-> x.tag, p |-> p,
                v |-> IF x.t \in {"seq", "map"} THEN WithKids(x, PlaceAll(Kids(x), 1, p + 1)).v ELSE x.v]
\* the integers of 128 bits
RECURSIVE Fits(_, _)
Fits(x, json) ==
    CASE x.t = "int" -> LET d == IntValue(x.v) IN d # <<>> /\ (json => InRange("i64", d) \/ InRange("u64", d))
      [] x.t = "float" -> json => /\ x.v # <<"N","a","N">> /\ FloatKey(x.v)[1] \notin {<<"i","n","f">>, <<"-","i","n","f">>}
                                  /\ Len(FloatKey(x.v)[2]) <= 15   \* the precision of the JSON reader
      [] x.t = "seq" -> \A i \in 1..Len(x.v) : Fits(x.v[i], json)
      [] x.t = "map" -> \A i \in 1..Len(x.v) : (json => x.v[i][1].t = "str") /\ Fits(x.v[i][1], json) /\ Fits(x.v[i][2], json)
      [] OTHER -> x.t # "alias"
\* the positions of the nodes that are an error
RECURSIVE Faults(_)
Faults(x) == CASE x.t = "alias" -> {x.p}
               [] x.t = "int" -> IF IntValue(x.v) = <<>> THEN {x.p} ELSE {}
               [] x.t = "seq" -> UNION {Faults(x.v[i]) : i \in 1..Len(x.v)}
               [] x.t = "map" -> UNION {Faults(x.v[i][1]) \cup Faults(x.v[i][2]) : i \in 1..Len(x.v)}
               [] OTHER -> {}
Least(S) == CHOOSE p \in S : \A y \in S : p <= y
\* as it is written again: the numbers of 64 or 128 bits in decimals
RECURSIVE Again(_)
Again(x) == [t |-> x.t, tag |-> <<>>,
             v |-> CASE x.t = "int" -> IntValue(x.v)
                     [] x.t = "seq" -> [i \in 1..Len(x.v) |-> Again(x.v[i])]
                     [] x.t = "map" -> InsertAll(<<>>, TLCEval([i \in 1..Len(x.v) |-> <<Again(x.v[i][1]), Again(x.v[i][2])>>]), 1)
                     [] OTHER -> x.v]
Wrong(d, r) == PrintT("WRONG " \o ToJson([d |-> d, r |-> r])) /\ FALSE
Read == IF ~Complete \/ Len(docs) # 1 THEN TRUE ELSE
    LET x == Place(DataOf(docs[1].root), 10)
        f == Faults(x)
        ok == Fits(x, FALSE)
    IN /\ (ok = (f = {})) \/ Wrong(x, f)
       /\ (ok => Same(Again(x), x) \/ \E k \in 1..Size(x) : LET y == Nth(x, k) IN y.t = "int" /\ ~IsI64(y.v)) \/ Wrong(x, Again(x))
       /\ PrintT(ToJson([k |-> "through", n |-> x, ok |-> ok, p |-> IF ok THEN 0 ELSE Least(f), json |-> Fits(x, TRUE), x |-> IF ok THEN Again(x) ELSE x]))
=============================================================================
