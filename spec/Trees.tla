-------------------------------- MODULE Trees -------------------------------
(* The nodes of a tree, in the order of the document (the root is 1). *)
EXTENDS Data

RECURSIVE PairsIn(_)
PairsIn(v) == IF v = <<>> THEN <<>> ELSE << <<v[1], v[2]>> >> \o PairsIn(SubSeq(v, 3, Len(v)))
RECURSIVE Size(_), Put(_, _, _), Sum(_, _)
Kids(x) == CASE x.t = "seq" -> x.v
             [] x.t = "map" -> Flat([i \in 1..Len(x.v) |-> <<x.v[i][1], x.v[i][2]>>])
             [] OTHER -> <<>>
Sum(v, i) == IF i > Len(v) THEN 0 ELSE Size(v[i]) + Sum(v, i + 1)
Size(x) == 1 + Sum(Kids(x), 1)
\* the child with the node k, and the number of the nodes before
RECURSIVE Seek(_, _, _)
Seek(v, i, k) == IF k <= Size(v[i]) THEN <<i, k>> ELSE Seek(v, i + 1, k - Size(v[i]))
WithKids(x, v) == [x EXCEPT !.v = IF x.t = "map" THEN PairsIn(v) ELSE v]
\* the node number k (the root is 1) is replaced
Put(x, k, y) == IF k = 1 THEN [y EXCEPT !.tag = x.tag]
                ELSE LET v == Kids(x)  s == Seek(v, 1, k - 1)
                     IN WithKids(x, [v EXCEPT ![s[1]] = Put(@, s[2], y)])
\* the node number k
RECURSIVE Nth(_, _)
Nth(x, k) == IF k = 1 THEN x ELSE LET v == Kids(x)  s == Seek(v, 1, k - 1) IN Nth(v[s[1]], s[2])
RECURSIVE Turn(_, _)
\* the collection number k in another order
Reverse(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
Turn(x, k) == IF k = 1 THEN (IF x.t \in {"seq", "map"} THEN [x EXCEPT !.v = Reverse(@)] ELSE x)
              ELSE LET v == Kids(x)  s == Seek(v, 1, k - 1)
                   IN WithKids(x, [v EXCEPT ![s[1]] = Turn(@, s[2])])
=============================================================================
