-------------------------------- MODULE Handles -----------------------------
(***************************************************************************)
(* Handles of nodes.  A handle has a tag, a position and refers to a cell  *)
(* of data, which is never changed; the items of a collection are handles  *)
(* as well.  The history of the operations is the conformance case: after  *)
(* every prefix of it all the handles show what they have here.            *)
(*   len  number of operations, hs  number of handles                      *)
(*   scalars, keys  the data, ops  the used operations                     *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils, FiniteSets

Conf == JsonDeserialize(IOEnv.CONF)
Pick(S) == IF Conf.all THEN S ELSE {RandomElement(S)}

VARIABLES cells,     \* the data: [t, v], the items are handles
          hs,        \* the handles [c, tag, p]
          hist       \* the operations
vars == <<cells, hs, hist>>
Init == cells = <<>> /\ hs = <<>> /\ hist = <<>>

H == 1..Len(hs)
Scal == 1..Len(Conf.scalars)
Log(e) == hist' = Append(hist, e)
NewCell(d) == cells' = Append(cells, d)
Handle(c, tag, p) == [c |-> c, tag |-> tag, p |-> p]
Room == Len(hs) < Conf.hs
Is(o) == o \in {Conf.ops[i] : i \in 1..Len(Conf.ops)}
TagOf(i) == Conf.tags[i]
Tags == 1..Len(Conf.tags)

\* a new node
New == /\ Room
       /\ \E s \in Pick(Scal), g \in Pick(Tags) :
            /\ NewCell([t |-> Conf.scalars[s].t, v |-> Conf.scalars[s].v])
            /\ hs' = Append(hs, Handle(Len(cells) + 1, TagOf(g), 10 + Len(hist)))
            /\ Log([o |-> "new", t |-> Conf.scalars[s].t, v |-> Conf.scalars[s].v, tag |-> TagOf(g), p |-> 10 + Len(hist)])
\* a new sequence of handles
NewSeq == /\ Room /\ Is("seq")
          /\ \E k \in Pick(IF hs = <<>> THEN {0} ELSE 0..2), g \in Pick(Tags) :
             \E a \in Pick(IF k > 0 THEN H ELSE {0}), b \in Pick(IF k > 1 THEN H ELSE {0}) :
               LET w == SubSeq(<<a, b>>, 1, k)
               IN /\ NewCell([t |-> "seq", v |-> [i \in 1..k |-> hs[w[i]]]])
                  /\ hs' = Append(hs, Handle(Len(cells) + 1, TagOf(g), 10 + Len(hist)))
                  /\ Log([o |-> "seq", v |-> w, tag |-> TagOf(g), p |-> 10 + Len(hist)])
RECURSIVE TreeC(_, _)
\* the data of a handle (in any cells)
TreeC(h, C) == LET d == C[h.c]
               IN [t |-> d.t, tag |-> h.tag, p |-> h.p,
                   v |-> CASE d.t = "seq" -> [i \in 1..Len(d.v) |-> TreeC(d.v[i], C)]
                           [] d.t = "map" -> [i \in 1..Len(d.v) |-> <<TreeC(d.v[i][1], C), TreeC(d.v[i][2], C)>>]
                           [] OTHER -> d.v]
Tree(h) == TreeC(h, cells)
\* insertion of handles by the equality of their data
FindH(m, k) == LET S == {i \in 1..Len(m) : Same(Tree(m[i][1]), Tree(k))} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
InsertH(m, k, v) == LET i == FindH(m, k)
                    IN IF i = 0 THEN Append(m, <<k, v>>)
                       ELSE Append(SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m)), <<m[i][1], v>>)
NewMap == /\ Room /\ Is("map") /\ hs # <<>>
          /\ \E k \in Pick(0..2), a \in Pick(H), b \in Pick(H), x \in Pick(H), y \in Pick(H), g \in Pick(Tags) :
               LET m0 == <<>>
                   m1 == InsertH(m0, hs[a], hs[x])
                   m2 == InsertH(m1, hs[b], hs[y])
                   m == CASE k = 0 -> m0 [] k = 1 -> m1 [] OTHER -> m2
               IN /\ k < 2 => (b = 1 /\ y = 1) \/ ~Conf.all
                  /\ k < 1 => (a = 1 /\ x = 1) \/ ~Conf.all
                  /\ NewCell([t |-> "map", v |-> m])
                  /\ hs' = Append(hs, Handle(Len(cells) + 1, TagOf(g), 10 + Len(hist)))
                  /\ Log([o |-> "map", v |-> SubSeq(<<a, x, b, y>>, 1, 2 * k), tag |-> TagOf(g), p |-> 10 + Len(hist)])
Clone == /\ Room /\ Is("clone")
         /\ \E a \in Pick(H) : /\ hs' = Append(hs, hs[a])
                               /\ Log([o |-> "clone", a |-> a])
                               /\ UNCHANGED cells
\* a child of a collection as a handle
Item == /\ Room /\ Is("item")
        /\ \E a \in Pick(H) : LET d == cells[hs[a].c]
           IN /\ d.t \in {"seq", "map"} /\ d.v # <<>>
              /\ \E i \in Pick(1..Len(d.v)) :
                    /\ hs' = Append(hs, IF d.t = "seq" THEN d.v[i] ELSE d.v[i][2])
                    /\ Log([o |-> "item", a |-> a, i |-> i - 1])
                    /\ UNCHANGED cells
\* the data of the handle is replaced
SetYaml == /\ Is("set")
           /\ \E a \in Pick(H), s \in Pick(Scal) :
                /\ NewCell([t |-> Conf.scalars[s].t, v |-> Conf.scalars[s].v])
                /\ hs' = [hs EXCEPT ![a].c = Len(cells) + 1]
                /\ Log([o |-> "set", a |-> a, t |-> Conf.scalars[s].t, v |-> Conf.scalars[s].v])
SetSeq == /\ Is("set") /\ Is("seq")
          /\ \E a \in Pick(H), b \in Pick(H) :
                /\ NewCell([t |-> "seq", v |-> <<hs[b]>>])
                /\ hs' = [hs EXCEPT ![a].c = Len(cells) + 1]
                /\ Log([o |-> "setseq", a |-> a, b |-> b])
SetRepr == /\ Is("repr")
           /\ \E a \in Pick(H), b \in Pick(H) : a # b
                /\ hs' = [hs EXCEPT ![a].c = hs[b].c]
                /\ Log([o |-> "repr", a |-> a, b |-> b])
                /\ UNCHANGED cells
\* a new handle of the data of another
NewRepr == /\ Room /\ Is("repr")
           /\ \E b \in Pick(H), g \in Pick(Tags) :
                /\ hs' = Append(hs, Handle(hs[b].c, TagOf(g), 10 + Len(hist)))
                /\ Log([o |-> "newrepr", b |-> b, tag |-> TagOf(g), p |-> 10 + Len(hist)])
                /\ UNCHANGED cells
Drop == /\ Is("drop") /\ Len(hs) > 1
        /\ \E a \in Pick(H) : /\ hs' = SubSeq(hs, 1, a - 1) \o SubSeq(hs, a + 1, Len(hs))
                              /\ Log([o |-> "drop", a |-> a])
                              /\ UNCHANGED cells
Next == /\ Len(hist) < Conf.len
        /\ \/ New \/ NewSeq \/ NewMap
           \/ hs # <<>> /\ (Clone \/ Item \/ SetYaml \/ SetSeq \/ SetRepr \/ NewRepr \/ Drop)

------------------------------------------------------------------------------
(* What a node shows. *)
Yes(v) == [ok |-> TRUE, v |-> v]
No(p)  == [ok |-> FALSE, p |-> p]
IsInt64(x) == x.t = "int" /\ IntKey(x.v)[1]
Accessors(x) ==
    [null  |-> x.t = "null",
     bool  |-> IF x.t = "bool" THEN Yes(x.v) ELSE No(x.p),
     int   |-> IF IsInt64(x) THEN Yes(IntKey(x.v)[2]) ELSE No(x.p),
     float |-> IF x.t = "float" THEN Yes(x.v) ELSE No(x.p),
     num   |-> IF IsInt64(x) THEN Yes(IntKey(x.v)[2]) ELSE IF x.t = "float" THEN Yes(x.v) ELSE No(x.p),
     str   |-> IF x.t = "str" THEN Yes(x.v) ELSE IF x.t = "null" THEN Yes(<<>>) ELSE No(x.p),
     value |-> IF x.t \in {"str", "int", "float", "bool"} THEN Yes(x.v) ELSE IF x.t = "null" THEN Yes(<<>>) ELSE No(x.p),
     seq   |-> IF x.t = "seq" THEN Yes(x.v) ELSE No(x.p),
     map   |-> IF x.t = "map" THEN Yes(x.v) ELSE No(x.p),
     tag   |-> ShownTag(x),
     \* the lookup of the keys and of the first indices
     get   |-> [i \in 1..Len(Conf.keys) |->
                   IF x.t # "map" THEN No(x.p)
                   ELSE LET j == FindKey(x.v, Conf.keys[i], 1) IN IF j = 0 THEN No(x.p) ELSE Yes(x.v[j][2])],
     ind   |-> [i \in 1..3 |-> IF x.t = "seq" /\ i <= Len(x.v) THEN Yes(x.v[i]) ELSE No(x.p)],
     \* 0: the default, 1: the value, 2: an error
     def   |-> [i \in 1..Len(Conf.keys) |-> IF x.t # "map" THEN 2 ELSE IF FindKey(x.v, Conf.keys[i], 1) = 0 THEN 0 ELSE 1],
     \* the anchors of conf.anchors
     anchor |-> IF x.t # "alias" THEN Yes(x)
                ELSE LET S == {i \in 1..Len(Conf.anchors) : Conf.anchors[i].name = x.v}
                     IN IF S = {} THEN No(x.p) ELSE Yes(Conf.anchors[CHOOSE i \in S : TRUE].node)]
Shows(x) == [x |-> x, acc |-> Accessors(x)]

\* the clones share the data, and nothing else does
Sharing == [i \in H |-> [j \in H |-> hs[i].c = hs[j].c]]
\* every handle keeps its data until it is replaced
CellsKept == [][\A i \in 1..Len(cells) : cells'[i] = cells[i]]_cells
OnlyTarget == [][\A i \in H : i <= Len(hs') /\ hist # hist' /\ hist'[Len(hist')].o \in {"set", "setseq", "repr"}
                   /\ i # hist'[Len(hist')].a => hs'[i] = hs[i]]_vars
Read == IF hist = <<>> \/ ~(Conf.all \/ Len(hist) >= Conf.len) THEN TRUE
        ELSE PrintT(ToJson([k |-> "handles", hist |-> hist, see |-> [i \in H |-> Shows(Tree(hs[i]))], share |-> Sharing,
                            keys |-> Conf.keys, anchors |-> Conf.anchors]))
=============================================================================
