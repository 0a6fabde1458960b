-------------------------------- MODULE Serde -------------------------------
(***************************************************************************)
(* Typed data and the nodes.                                               *)
(*                                                                         *)
(* A type is a record with the kind k:                                     *)
(*   "bool" | "i8" .. "u128" | "f32" | "f64" | "char" | "string" | "bytes" *)
(*   "unit" | "ustruct"      no data                                       *)
(*   "opt" | "new" | "seq"   a: the inner type                             *)
(*   "tup" | "tstruct"       v: the types                                  *)
(*   "map"                   a, b: the types of the keys and the values    *)
(*   "struct"                f: the fields [n, ty, d] where d is           *)
(*                           "need" | "opt" | "default"; deny; only if it  *)
(*                           is an alternative, not read from a sequence   *)
(*   "enum"                  v: the variants [n, k, ty], k is              *)
(*                           "unit" | "new" | "tup" | "struct"             *)
(*   "any"                   v: the untagged alternatives                  *)
(*   "itag"                  v: the variants, n: the key of the variant    *)
(*                           among the fields                              *)
(*   "adj"                   v: the variants, n and c: the keys of the     *)
(*                           variant and of its content                    *)
(*   "flat"                  f: the fields, at: a struct and rest: a map   *)
(*                           of strings, in the same mapping               *)
(* A value of it is a record [k, v]; options are "none" and "some",        *)
(* variants [k |-> "var", i, v] and alternatives [k |-> "alt", i, v].      *)
(***************************************************************************)
EXTENDS Trees

Ints == {"i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"}
Floats == {"f32", "f64"}

------------------------------------------------------------------------------
(* The integers are decimal texts: a sign and digits. *)
Neg(d) == d # <<>> /\ d[1] = "-"
Abs(d) == IF Neg(d) THEN Tail(d) ELSE d
\* a <= b for canonical texts
Leq(a, b) == CASE Neg(a) /\ Neg(b) -> DecLeq(Abs(b), Abs(a))
               [] Neg(a) /\ ~Neg(b) -> TRUE
               [] ~Neg(a) /\ Neg(b) -> FALSE
               [] OTHER -> DecLeq(a, b)
MaxOf(k) == CASE k = "i8" -> <<"1","2","7">> [] k = "u8" -> <<"2","5","5">>
              [] k = "i16" -> <<"3","2","7","6","7">> [] k = "u16" -> <<"6","5","5","3","5">>
              [] k = "i32" -> <<"2","1","4","7","4","8","3","6","4","7">>
              [] k = "u32" -> <<"4","2","9","4","9","6","7","2","9","5">>
              [] k = "i64" -> I64Max
              [] k = "u64" -> <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>
              [] k = "i128" -> <<"1","7","0","1","4","1","1","8","3","4","6","0","4","6","9","2","3","1","7","3","1","6","8","7","3","0","3","7","1","5","8","8","4","1","0","5","7","2","7">>
              [] OTHER -> <<"3","4","0","2","8","2","3","6","6","9","2","0","9","3","8","4","6","3","4","6","3","3","7","4","6","0","7","4","3","1","7","6","8","2","1","1","4","5","5">>
\* the last digit of the minimum is one more
MinOf(k) == IF k \in {"u8", "u16", "u32", "u64", "u128"} THEN <<"0">>
            ELSE <<"-">> \o [MaxOf(k) EXCEPT ![Len(MaxOf(k))] = IF @ = "7" THEN "8" ELSE @]
InRange(k, d) == Leq(MinOf(k), d) /\ Leq(d, MaxOf(k))
\* the value of the text of an integer, <<>> if it is none of 128 bits
\* (64 bits in other bases)
Other(s) == LET u == Unsigned(s) IN Len(u) > 2 /\ u[1] = "0" /\ u[2] \in {"x", "o"}
IntValue(s) ==
    LET d == Decimal(s)
    IN IF d = <<>> THEN <<>>
       ELSE IF Leq(MinOf(IF Other(s) THEN "i64" ELSE "i128"), d) /\ Leq(d, MaxOf(IF Other(s) THEN "i64" ELSE "u128")) THEN d ELSE <<>>

------------------------------------------------------------------------------
(* The node of a value. *)
Leaf(t, v) == [t |-> t, v |-> v, tag |-> <<>>, a |-> <<>>]
MapOf(v) == Leaf("map", InsertAll(<<>>, TLCEval(v), 1))
RECURSIVE Ser(_, _)
Fields(f, v) == MapOf([i \in 1..Len(f) |-> <<Leaf("str", f[i].n), Ser(f[i].ty, v[i])>>])
Ser(ty, x) ==
    CASE ty.k = "bool" -> Leaf("bool", x.v)
      [] ty.k \in Ints -> Leaf("int", x.v)
      [] ty.k \in Floats -> Leaf("float", x.v)
      [] ty.k \in {"char", "string"} -> Leaf("str", x.v)
      [] ty.k = "bytes" -> Leaf("seq", [i \in 1..Len(x.v) |-> Leaf("int", x.v[i].v)])
      [] ty.k \in {"unit", "ustruct"} -> Leaf("null", <<>>)
      [] ty.k = "opt" -> IF x.k = "none" THEN Leaf("null", <<>>) ELSE Ser(ty.a, x.v)
      [] ty.k = "new" -> Ser(ty.a, x.v)
      [] ty.k = "seq" -> Leaf("seq", [i \in 1..Len(x.v) |-> Ser(ty.a, x.v[i])])
      [] ty.k \in {"tup", "tstruct"} -> Leaf("seq", [i \in 1..Len(x.v) |-> Ser(ty.v[i], x.v[i])])
      [] ty.k = "map" -> MapOf([i \in 1..Len(x.v) |-> <<Ser(ty.a, x.v[i][1]), Ser(ty.b, x.v[i][2])>>])
      [] ty.k = "struct" -> Fields(ty.f, x.v)
      [] ty.k = "enum" ->
           LET w == ty.v[x.i]  name == Leaf("str", w.n)
           IN CASE w.k = "unit" -> name
                [] w.k = "new" -> MapOf(<< <<name, Ser(w.ty, x.v)>> >>)
                [] w.k = "tup" -> MapOf(<< <<name, Leaf("seq", [i \in 1..Len(x.v) |-> Ser(w.ty.v[i], x.v[i])])>> >>)
                [] OTHER -> MapOf(<< <<name, Fields(w.ty.f, x.v)>> >>)
      [] ty.k = "any" -> Ser(ty.v[x.i], x.v)
      [] ty.k = "flat" -> MapOf([i \in 1..Len(ty.f) |-> <<Leaf("str", ty.f[i].n), Ser(ty.f[i].ty, x.v[i])>>]
                                \o Ser(ty.at, x.v[Len(ty.f) + 1]).v \o Ser(ty.rest, x.v[Len(ty.f) + 2]).v)
      [] ty.k \in {"itag", "adj"} ->
           LET w == ty.v[x.i]
               tag == <<Leaf("str", ty.n), Leaf("str", w.n)>>
               c == CASE w.k = "new" -> Ser(w.ty, x.v)
                      [] w.k = "tup" -> Leaf("seq", [i \in 1..Len(x.v) |-> Ser(w.ty.v[i], x.v[i])])
                      [] w.k = "struct" -> Fields(w.ty.f, x.v)
                      [] OTHER -> Leaf("map", <<>>)
           IN IF ty.k = "itag" THEN MapOf(<<tag>> \o c.v)
              ELSE MapOf(IF w.k = "unit" THEN <<tag>> ELSE <<tag, <<Leaf("str", ty.c), c>> >>)

------------------------------------------------------------------------------
(* The value of a node, or the position of the error.  Inside of untagged  *)
(* alternatives (b is TRUE) the data are buffered by serde: no conversions *)
(* are made, and their error is the one of the node with the alternatives. *)
Good(v) == [ok |-> TRUE, v |-> v]
Bad(p) == [ok |-> FALSE, p |-> p]
V(k, v) == [k |-> k, v |-> v]
RECURSIVE FirstBad(_, _)
FirstBad(r, i) == IF i > Len(r) THEN 0 ELSE IF ~r[i].ok THEN i ELSE FirstBad(r, i + 1)
RECURSIVE Buffered(_)
\* the position of data that cannot be buffered, -1 if all can
Buffered(n) ==
    CASE n.t = "alias" -> n.p
      [] n.t = "int" -> LET d == IntValue(n.v) IN IF d # <<>> /\ (InRange("i64", d) \/ InRange("u64", d)) THEN 0 - 1 ELSE n.p
      [] n.t = "seq" -> LET r == [i \in 1..Len(n.v) |-> Buffered(n.v[i])]
                        IN IF \E i \in DOMAIN r : r[i] >= 0 THEN r[CHOOSE i \in DOMAIN r : r[i] >= 0 /\ \A j \in 1..(i - 1) : r[j] < 0] ELSE 0 - 1
      [] n.t = "map" -> LET w == [i \in 1..(2 * Len(n.v)) |-> n.v[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
                            r == [i \in DOMAIN w |-> Buffered(w[i])]
                        IN IF \E i \in DOMAIN r : r[i] >= 0 THEN r[CHOOSE i \in DOMAIN r : r[i] >= 0 /\ \A j \in 1..(i - 1) : r[j] < 0] ELSE 0 - 1
      [] OTHER -> 0 - 1
RECURSIVE Tagged(_, _, _), Beside(_, _, _), Flattened(_, _, _)
RECURSIVE De(_, _, _), List(_, _, _, _, _), Take(_, _, _, _), FieldsOf(_, _, _, _), AltOf(_, _, _, _)
\* the items of v as the types of tys, the error of the node n
Take(tys, n, b, i) ==
    IF i > Len(tys) THEN (IF Len(n.v) > Len(tys) THEN Bad(n.p) ELSE Good(<<>>))
    ELSE IF i > Len(n.v) THEN Bad(n.p)
    ELSE LET h == De(tys[i], n.v[i], b)
         IN IF ~h.ok THEN h ELSE LET r == Take(tys, n, b, i + 1) IN IF ~r.ok THEN r ELSE Good(<<h.v>> \o r.v)
List(ty, v, b, i, acc) ==
    IF i > Len(v) THEN Good(acc)
    ELSE LET h == De(ty, v[i], b) IN IF ~h.ok THEN h ELSE List(ty, v, b, i + 1, Append(acc, h.v))
Missing(f, n) == CASE f.d = "opt" -> Good(V("none", <<>>)) [] f.d = "default" -> Good(f.dv) [] OTHER -> Bad(n.p)
\* a sequence as fields, the missing ones at the end have their defaults
RECURSIVE SeqFields(_, _, _, _)
SeqFields(f, n, b, i) ==
    IF i > Len(f) THEN (IF Len(n.v) > Len(f) THEN Bad(n.p) ELSE Good(<<>>))
    ELSE LET h == IF i <= Len(n.v) THEN De(f[i].ty, n.v[i], b)
                  ELSE IF f[i].d = "default" THEN Good(f[i].dv) ELSE Bad(n.p)
         IN IF ~h.ok THEN h ELSE LET r == SeqFields(f, n, b, i + 1) IN IF ~r.ok THEN r ELSE Good(<<h.v>> \o r.v)
\* the pairs in order: the keys have to be strings, the values the fields
NoField == [none |-> TRUE]
RECURSIVE MapFields(_, _, _, _, _)
MapFields(ty, n, b, i, got) ==
    IF i > Len(n.v)
    THEN LET F == 1..Len(ty.f)
             r == [j \in F |-> IF DOMAIN got[j] = {"none"} THEN Missing(ty.f[j], n) ELSE Good(got[j])]
         IN IF \A j \in F : r[j].ok THEN Good([j \in F |-> r[j].v]) ELSE Bad(n.p)
    ELSE LET k == n.v[i][1]  w == n.v[i][2]
             J == {j \in 1..Len(ty.f) : k.t = "str" /\ ty.f[j].n = k.v}
             \* a buffered number beyond 63 bits is an unknown field
             out == b /\ k.t = "int" /\ IntValue(k.v) # <<>> /\ ~InRange("i64", IntValue(k.v)) /\ ~Neg(IntValue(k.v))
         IN IF k.t # "str" /\ ~out THEN Bad(k.p)
            ELSE IF J = {} THEN (IF ty.deny THEN Bad(k.p) ELSE MapFields(ty, n, b, i + 1, got))
            ELSE LET j == CHOOSE j \in J : TRUE
                     h == De(ty.f[j].ty, w, b)
                 IN IF ~h.ok THEN h ELSE MapFields(ty, n, b, i + 1, [got EXCEPT ![j] = h.v])
FieldsOf(ty, n, b, seq) ==
    CASE n.t = "seq" /\ seq -> SeqFields(ty.f, n, b, 1)
      [] n.t = "map" -> MapFields(ty, n, b, 1, [j \in 1..Len(ty.f) |-> NoField])
      [] OTHER -> Bad(n.p)
\* the alternatives in order
AltOf(ty, n, b, i) == IF i > Len(ty.v) THEN Bad(0 - 1)
                      ELSE LET h == De(ty.v[i], n, TRUE) IN IF h.ok THEN Good([k |-> "alt", i |-> i, v |-> h.v]) ELSE AltOf(ty, n, b, i + 1)
Wrap(r, k) == IF r.ok THEN Good(V(k, r.v)) ELSE r
RECURSIVE PairList(_, _, _, _, _)
PairList(ty, v, b, i, acc) ==
    IF i > Len(v) THEN Good(acc)
    ELSE LET x == De(ty.a, v[i][1], b)
         IN IF ~x.ok THEN x ELSE LET y == De(ty.b, v[i][2], b) IN IF ~y.ok THEN y ELSE PairList(ty, v, b, i + 1, Append(acc, <<x.v, y.v>>))
\* the variants by the name, and the error of the node of the name
Named(ty, x) == {j \in 1..Len(ty.v) : x.t = "str" /\ ty.v[j].n = x.v}
NoPos(r) == IF r.ok THEN r ELSE Bad(0 - 1)
Var(i, r) == IF r.ok THEN Good([k |-> "var", i |-> i, v |-> r.v]) ELSE NoPos(r)
Tagged(ty, n, b) ==
    LET J == {i \in 1..Len(n.v) : n.v[i][1].t = "str" /\ n.v[i][1].v = ty.n}
        seq == n.t = "seq"
        i == CHOOSE i \in J : TRUE
        tag == IF seq THEN n.v[1] ELSE n.v[i][2]
        rest == [n EXCEPT !.v = IF seq THEN Tail(@) ELSE SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
        \* all are read in order, the tag as a name, the others are buffered
        flat == IF seq THEN n.v ELSE [m \in 1..(2 * Len(n.v)) |-> n.v[(m + 1) \div 2][IF m % 2 = 1 THEN 1 ELSE 2]]
        tags == IF seq THEN {1} ELSE {2 * j : j \in J}
        WrongAt(m) == IF m \in tags THEN (IF Named(ty, flat[m]) = {} THEN flat[m].p ELSE 0 - 1) ELSE IF b THEN 0 - 1 ELSE Buffered(flat[m])
        wrong == {m \in DOMAIN flat : WrongAt(m) >= 0}
    IN IF ~(n.t = "map" \/ (seq /\ n.v # <<>>)) THEN Bad(n.p)
       ELSE IF wrong # {} THEN Bad(WrongAt(CHOOSE m \in wrong : \A o \in wrong : m <= o))
       ELSE IF ~seq /\ J = {} THEN Bad(n.p)
       ELSE LET j == CHOOSE j \in Named(ty, tag) : TRUE
                w == ty.v[j]
            IN Var(j, CASE w.k = "unit" -> IF seq /\ rest.v # <<>> THEN Bad(0 - 1) ELSE Good(<<>>)
                        [] w.k = "new" -> De(w.ty, rest, TRUE)
                        [] OTHER -> FieldsOf(w.ty, rest, TRUE, TRUE))
Beside(ty, n, b) ==     \* of a mapping that is written
    LET tag == n.v[1][2]
        j == CHOOSE j \in Named(ty, tag) : TRUE
        w == ty.v[j]
        c == n.v[2][2]
        In(r) == IF r.ok THEN Good([k |-> "var", i |-> j, v |-> r.v]) ELSE r
    IN CASE w.k = "unit" -> In(Good(<<>>))
         [] w.k = "new" -> In(De(w.ty, c, b))
         [] w.k = "tup" -> In(Take(w.ty.v, c, b, 1))
         [] OTHER -> In(FieldsOf(w.ty, c, b, b))
Flattened(ty, n, b) ==
    LET Own(x) == {j \in 1..Len(ty.f) : ty.f[j].n = x.v}
        WrongAt(x, y) == IF x.t # "str" THEN x.p
                    ELSE IF Own(x) = {} THEN Buffered(y)
                    ELSE LET r == De(ty.f[CHOOSE j \in Own(x) : TRUE].ty, y, b) IN IF r.ok THEN 0 - 1 ELSE r.p
        wrong == {i \in 1..Len(n.v) : WrongAt(n.v[i][1], n.v[i][2]) >= 0}
        parts == {ty.at.f[i].n : i \in 1..Len(ty.at.f)}
        Of(S(_)) == [n EXCEPT !.v = SelectSeq(@, LAMBDA p : S(p[1]))]
        own == MapFields([ty EXCEPT !.k = "struct"] @@ [deny |-> FALSE], n, b, 1, [j \in 1..Len(ty.f) |-> NoField])
        at == De(ty.at, Of(LAMBDA k : k.v \in parts /\ Own(k) = {}), TRUE)
        rest == De(ty.rest, Of(LAMBDA k : k.v \notin parts /\ Own(k) = {}), TRUE)
    IN IF n.t # "map" THEN Bad(n.p)
       ELSE IF wrong # {} THEN Bad(LET m == CHOOSE m \in wrong : \A o \in wrong : m <= o IN WrongAt(n.v[m][1], n.v[m][2]))
       ELSE IF ~own.ok \/ ~at.ok \/ ~rest.ok THEN Bad(n.p)
       ELSE Good(V("struct", own.v \o <<at.v, rest.v>>))
NullText == <<"n","u","l","l">>
De(ty, n, b) ==
    LET k == ty.k  t == n.t  no == Bad(n.p)
    IN CASE k = "bool" -> IF t = "bool" THEN Good(V(k, n.v)) ELSE no
         [] k \in Ints -> IF t # "int" THEN no
                          ELSE LET d == IntValue(n.v) IN IF d # <<>> /\ InRange(k, d) THEN Good(V(k, d)) ELSE no
         [] k \in Floats ->
              (CASE t = "float" -> Good(V(k, n.v))
                 [] t = "int" -> LET d == IntValue(n.v)
                                 IN IF d # <<>> THEN Good(V(k, d))
                                    ELSE IF ~b /\ IsDec(Unsigned(n.v)) THEN Good(V(k, n.v)) ELSE no
                 [] OTHER -> no)
         [] k = "char" -> IF Len(n.v) = 1 /\ (t = "str" \/ (~b /\ t = "int")) THEN Good(V(k, n.v)) ELSE no
         [] k = "string" -> IF t = "str" \/ (~b /\ t \in {"int", "float", "bool"}) THEN Good(V(k, n.v))
                            ELSE IF ~b /\ t = "null" THEN Good(V(k, NullText)) ELSE no
         [] k = "bytes" -> IF t = "seq" THEN Wrap(List([k |-> "u8"], n.v, b, 1, <<>>), k) ELSE no
         [] k \in {"unit", "ustruct"} -> IF t = "null" THEN Good(V(k, <<>>)) ELSE no
         [] k = "opt" -> IF t = "null" THEN Good(V("none", <<>>)) ELSE Wrap(De(ty.a, n, b), "some")
         [] k = "new" -> Wrap(De(ty.a, n, b), k)
         [] k = "seq" -> IF t = "seq" THEN Wrap(List(ty.a, n.v, b, 1, <<>>), k) ELSE no
         [] k \in {"tup", "tstruct"} -> IF t = "seq" THEN Wrap(Take(ty.v, n, b, 1), k) ELSE no
         [] k = "map" -> IF t = "map" THEN Wrap(PairList(ty, n.v, b, 1, <<>>), k) ELSE no
         [] k = "struct" -> Wrap(FieldsOf(ty, n, b, "only" \notin DOMAIN ty), k)
         [] k = "enum" ->
              (LET name == IF t = "str" THEN n ELSE IF t = "map" /\ Len(n.v) = 1 THEN n.v[1][1] ELSE n
                   J == {j \in 1..Len(ty.v) : name.t = "str" /\ ty.v[j].n = name.v}
                   j == CHOOSE j \in J : TRUE
                   w == ty.v[j]
                   In(r) == IF r.ok THEN Good([k |-> "var", i |-> j, v |-> r.v]) ELSE r
               IN IF t # "str" /\ ~(t = "map" /\ Len(n.v) = 1) THEN no
                  ELSE IF J = {} THEN Bad(name.p)
                  ELSE IF t = "str" THEN (IF w.k = "unit" THEN In(Good(<<>>)) ELSE no)
                  ELSE LET c == n.v[1][2]
                       IN CASE w.k = "unit" -> IF c.t = "null" THEN In(Good(<<>>)) ELSE Bad(c.p)
                            [] w.k = "new" -> In(De(w.ty, c, b))
                            [] w.k = "tup" -> IF c.t = "seq" THEN In(Take(w.ty.v, c, b, 1)) ELSE Bad(c.p)
                            [] OTHER -> In(FieldsOf(w.ty, c, b, b)))   \* serde reads a buffered sequence, too
         [] k = "itag" -> Tagged(ty, n, b)
         [] k = "adj" -> Beside(ty, n, b)
         [] k = "flat" -> Flattened(ty, n, b)
         [] k = "any" -> LET p == Buffered(n) IN IF ~b /\ p >= 0 THEN Bad(p) ELSE AltOf(ty, n, b, 1)
=============================================================================
