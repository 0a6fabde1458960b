-------------------------------- MODULE Typed -------------------------------
(***************************************************************************)
(* Values of the types, made from left to right: the tokens are the        *)
(* scalars, the lengths and the numbers of the variants.  Then the node of *)
(* the value is edited step by step.                                       *)
(*   types   the types, ints, floats, chars, strs  the scalars             *)
(*   len     the length of the sequences, size  the tokens after which     *)
(*           they are empty                                                *)
(*   edits   the number of the edits, scalars  the edited nodes [t, v]     *)
(*   want    "ser": the value of the node is the value, the same in a text *)
(*           "de": any node as the type                                    *)
(***************************************************************************)
EXTENDS Serde, Writer, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
Pick(S) == IF Conf.all THEN S ELSE {RandomElement(S)}

VARIABLES ty,       \* the number of the type
          todo,     \* the types of the values that follow
          toks,     \* the tokens
          node,     \* the edited node (a sequence of one, or none)
          done      \* the number of the edits
vars == <<ty, todo, toks, node, done>>
Init == ty = 0 /\ todo = <<>> /\ toks = <<>> /\ node = <<>> /\ done = 0

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Long == Len(toks) > Conf.size
\* the lengths up to the one of the configuration
Lengths == IF Long THEN {0} ELSE 0..Conf.len
Choices(t) ==
    CASE t.k = "bool" -> {<<"t","r","u","e">>, <<"f","a","l","s","e">>}
      [] t.k \in Ints -> {d \in SeqSet(Conf.ints) : InRange(t.k, d)} \cup {MinOf(t.k), MaxOf(t.k)}
      [] t.k = "f32" -> SeqSet(Conf.floats)
      [] t.k = "f64" -> SeqSet(Conf.floats) \cup SeqSet(Conf.doubles)
      [] t.k = "char" -> SeqSet(Conf.chars)
      [] t.k = "string" -> SeqSet(Conf.strs)
      [] t.k \in {"seq", "map", "bytes"} -> {<<n>> : n \in Lengths}
      [] t.k = "opt" -> IF Long THEN {<<0>>} ELSE {<<0>>, <<1>>}
      [] t.k \in {"enum", "any", "itag", "adj"} -> {<<n>> : n \in 1..Len(t.v)}
      [] OTHER -> {<<>>}
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Inner(t, c) ==
    CASE t.k = "seq" -> Times(<<t.a>>, c[1])
      [] t.k = "map" -> Times(<<t.a, t.b>>, c[1])
      [] t.k = "bytes" -> Times(<<[k |-> "u8"]>>, c[1])
      [] t.k = "opt" -> IF c[1] = 1 THEN <<t.a>> ELSE <<>>
      [] t.k = "new" -> <<t.a>>
      [] t.k \in {"tup", "tstruct"} -> t.v
      [] t.k = "struct" -> [i \in 1..Len(t.f) |-> t.f[i].ty]
      [] t.k = "flat" -> [i \in 1..Len(t.f) |-> t.f[i].ty] \o <<t.at, t.rest>>
      [] t.k \in {"enum", "itag", "adj"} -> (LET w == t.v[c[1]]
                          IN CASE w.k = "unit" -> <<>> [] w.k = "new" -> <<w.ty>> [] w.k = "tup" -> w.ty.v
                               [] OTHER -> [i \in 1..Len(w.ty.f) |-> w.ty.f[i].ty])
      [] t.k = "any" -> <<t.v[c[1]]>>
      [] OTHER -> <<>>
\* the value of the tokens from i: <<value, the next token>>
RECURSIVE Build(_, _), BuildAll(_, _, _, _)
BuildAll(ts, j, i, acc) == IF j > Len(ts) THEN <<acc, i>>
                           ELSE LET r == Build(ts[j], i) IN BuildAll(ts, j + 1, r[2], Append(acc, r[1]))
Build(t, i) ==
    LET c == toks[i]
        r == BuildAll(Inner(t, c), 1, i + 1, <<>>)
        k == t.k
        w == r[1]
    IN CASE k = "opt" -> <<IF c[1] = 1 THEN V("some", w[1]) ELSE V("none", <<>>), r[2]>>
         [] k = "new" -> <<V(k, w[1]), r[2]>>
         [] k \in {"seq", "bytes", "tup", "tstruct", "struct"} -> <<V(k, w), r[2]>>
         [] k = "map" -> <<V(k, PairsIn(w)), r[2]>>
         [] k = "flat" -> <<V("struct", w), r[2]>>
         [] k \in {"enum", "itag", "adj"} -> <<[k |-> "var", i |-> c[1], v |-> IF t.v[c[1]].k = "new" THEN w[1] ELSE w], r[2]>>
         [] k = "any" -> <<[k |-> "alt", i |-> c[1], v |-> w[1]], r[2]>>
         [] OTHER -> <<V(k, c), i + 1>>
Type == Conf.types[ty]
Value == Build(Type, 1)[1]

Begin == /\ ty = 0 /\ \E i \in Pick(1..Len(Conf.types)) : ty' = i /\ todo' = <<Conf.types[i]>>
         /\ UNCHANGED <<toks, node, done>>
Put1 == /\ todo # <<>>
        /\ \E c \in Pick(Choices(todo[1])) :
              toks' = Append(toks, c) /\ todo' = Inner(todo[1], c) \o Tail(todo)
        /\ UNCHANGED <<ty, node, done>>
Whole == ty # 0 /\ todo = <<>>
Finish == /\ Whole /\ node = <<>> /\ node' = <<Ser(Type, Value)>> /\ UNCHANGED <<ty, todo, toks, done>>

------------------------------------------------------------------------------
(* The edits. *)
CanEdit == node # <<>> /\ done < Conf.edits
Edited(x) == node' = <<Unique(x)>> /\ done' = done + 1 /\ UNCHANGED <<ty, todo, toks>>
Atom(s) == Leaf(Conf.scalars[s].t, Conf.scalars[s].v)
Scal == 1..Len(Conf.scalars)
EReplace == CanEdit /\ \E k \in Pick(1..Size(node[1])), s \in Pick(Scal) : Edited(Put(node[1], k, Atom(s)))
\* an item or a pair is removed, repeated or added
EDrop == /\ CanEdit /\ \E k \in Pick(1..Size(node[1])) :
            LET x == Nth(node[1], k)
            IN /\ x.t \in {"seq", "map"} /\ x.v # <<>>
               /\ \E i \in Pick(1..Len(x.v)) :
                     Edited(Put(node[1], k, [x EXCEPT !.v = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]))
EAdd == /\ CanEdit /\ \E k \in Pick(1..Size(node[1])), s \in Pick(Scal), j \in Pick(1..Size(node[1])) :
            LET x == Nth(node[1], k)  y == Nth(node[1], j)
            IN /\ x.t \in {"seq", "map"}
               /\ Edited(Put(node[1], k, [x EXCEPT !.v = IF x.t = "seq" THEN Append(@, Atom(s)) ELSE Append(@, <<Atom(s), y>>)]))
\* another node of the tree
ECopy == CanEdit /\ \E k \in Pick(1..Size(node[1])), j \in Pick(1..Size(node[1])) : Edited(Put(node[1], k, Nth(node[1], j)))
\* in a sequence
EWrap == CanEdit /\ \E k \in Pick(1..Size(node[1])) : Edited(Put(node[1], k, Leaf("seq", <<Nth(node[1], k)>>)))
\* a mapping as its values, and the other way around
EFields == /\ CanEdit /\ \E k \in Pick(1..Size(node[1])) :
              LET x == Nth(node[1], k)
              IN x.t = "map" /\ Edited(Put(node[1], k, Leaf("seq", [i \in 1..Len(x.v) |-> x.v[i][2]])))
ETurn == /\ CanEdit /\ \E k \in Pick(1..Size(node[1])) : Edited(Turn(node[1], k))
Next == Begin \/ Put1 \/ Finish \/ EReplace \/ EDrop \/ EAdd \/ ECopy \/ EWrap \/ EFields \/ ETurn

------------------------------------------------------------------------------
\* the positions of the nodes are their numbers
RECURSIVE Placed(_, _), PlacedAll(_, _, _)
PlacedAll(v, i, p) == IF i > Len(v) THEN <<>> ELSE <<Placed(v[i], p)>> \o PlacedAll(v, i + 1, p + Size(v[i]))
Placed(x, p) == [t |-> x.t, tag |-> x.tag, p |-> p,
                 v |-> IF x.t \in {"seq", "map"} THEN WithKids(x, PlacedAll(Kids(x), 1, p + 1)).v ELSE x.v]
Wrong(d, r) == PrintT("WRONG " \o ToJson([d |-> d, r |-> r])) /\ FALSE
\* no key twice
RECURSIVE Distinct(_)
Distinct(x) == CASE x.k = "map" -> /\ \A i, j \in 1..Len(x.v) : i # j => x.v[i][1] # x.v[j][1]
                                   /\ \A i \in 1..Len(x.v) : Distinct(x.v[i][1]) /\ Distinct(x.v[i][2])
                 [] x.k \in {"some", "new", "alt"} -> Distinct(x.v)
                 [] x.k \in {"seq", "tup", "tstruct", "struct"} -> \A i \in 1..Len(x.v) : Distinct(x.v[i])
                 [] OTHER -> TRUE
ReadSer == IF node = <<>> \/ done # 0 \/ ~Distinct(Value) THEN TRUE ELSE
    LET x == node[1]
        v == Value
        r == De(Type, Placed(x, 10), FALSE)
        d == Write(x, "", 0, FALSE) \o <<"\n">>
        l == Load(d, FALSE)
        s == IF l.ok /\ Len(l.docs) = 1 THEN De(Type, l.docs[1], FALSE) ELSE l
    IN /\ (r.ok /\ r.v = v) \/ Wrong(<<v, x>>, r)
       /\ s.ok \/ Wrong(d, s)
       /\ PrintT(ToJson([k |-> "ser", ty |-> Type, v |-> v, x |-> x]))
\* the methods of the convenience types
Methods(t, v) == CASE t.conv = "inline" -> [items |-> IF v.i = 1 THEN v.v.v ELSE <<v.v>>]
                   [] t.conv = "optional" -> [state |-> IF v.i = 2 THEN "value" ELSE IF v.v.v = <<"t","r","u","e">> THEN "default" ELSE "off",
                                              value |-> v.v, default |-> t.dv]
                   [] OTHER -> [text |-> v.v.v, float |-> v.i = 3]
ReadDe == IF node = <<>> THEN TRUE ELSE
    LET x == Placed(node[1], 10)
        r == De(Type, x, FALSE)
        c == [k |-> "de", ty |-> Type, n |-> x, r |-> r]
    IN PrintT(ToJson(IF "conv" \in DOMAIN Type /\ r.ok THEN c @@ [c |-> Methods(Type, r.v), x |-> Ser(Type, r.v)] ELSE c))
Read == IF Conf.want = "ser" THEN ReadSer ELSE ReadDe
=============================================================================
