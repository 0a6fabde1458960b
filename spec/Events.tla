-------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Data put together event by event, as by a composer of YAML: scalars,    *)
(* aliases, the starts and the ends of the collections, document after     *)
(* document.  Every node has its tag, its anchor and its presentation.     *)
(*   size   the number of starts and scalars, after it all are closed      *)
(*   level  the depth of the collections, docs  the number of documents    *)
(*   scalars [t, v], pieces and mix  strings of at most mix pieces         *)
(*   styles  presentations, tags, names of the anchors                     *)
(*   alias   0: none, 1: of complete nodes, 2: also of the open ones       *)
(*   all     all the choices, or random ones in the simulation             *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
Pick(S) == IF Conf.all THEN S ELSE {RandomElement(S)}

VARIABLES n,        \* the number of the events that make a node
          stack,    \* the open collections, the items in a row
          docs,     \* the finished documents: [root, anc]
          anc       \* the finished anchored nodes of the document <<name, node>>
vars == <<n, stack, docs, anc>>

Init == n = 0 /\ stack = <<>> /\ docs = <<>> /\ anc = <<>>

\* the node is written before any other
Raw(t, v, tag, a, st) == [t |-> t, v |-> v, tag |-> tag, a |-> a, st |-> st]
RECURSIVE Pairs(_)
Pairs(v) == IF v = <<>> THEN <<>> ELSE << <<v[1], v[2]>> >> \o Pairs(SubSeq(v, 3, Len(v)))

NameSet  == {Conf.names[i] : i \in 1..Len(Conf.names)}
UsedSet  == {anc[i][1] : i \in 1..Len(anc)} \cup {stack[i].a : i \in 1..Len(stack)}
Free     == NameSet \ UsedSet
AliasSet == CASE Conf.alias = 0 -> {}
              [] Conf.alias = 1 -> {anc[i][1] : i \in 1..Len(anc)}
              [] OTHER -> UsedSet \ {<<>>}
\* no anchor, or the first free one (all the others are alike)
AnchorChoice == {<<>>} \cup (IF Free = {} \/ (~Conf.all /\ RandomElement(1..3) > 1) THEN {} ELSE {CHOOSE x \in Free : \A i \in 1..Len(Conf.names) :
                                Conf.names[i] = x => \A j \in 1..(i - 1) : Conf.names[j] \notin Free})

\* the node r is complete
Add(r, S) == IF S = <<>>
             THEN /\ docs' = Append(docs, [root |-> r, anc |-> IF r.a = <<>> THEN anc ELSE Append(anc, <<r.a, r>>)])
                  /\ anc' = <<>> /\ stack' = <<>>
             ELSE /\ stack' = [S EXCEPT ![Len(S)].v = Append(@, r)]
                  /\ anc' = (IF r.a = <<>> THEN anc ELSE Append(anc, <<r.a, r>>))
                  /\ UNCHANGED docs

Wanted == IF stack = <<>> THEN Len(docs) < Conf.docs ELSE TRUE
\* the value of a pair is missing
Odd == stack # <<>> /\ stack[Len(stack)].t = "map" /\ Len(stack[Len(stack)].v) % 2 = 1
More == Wanted /\ (n < Conf.size \/ Odd)

\* the random data are seldom a scalar, and the collections seldom empty
Now(k) == Conf.all \/ RandomElement(1..k) = 1
Root1 == stack # <<>> \/ Now(8)

Tags == 1..Len(Conf.tags)
Styles == 1..Len(Conf.styles)
Scalars == 1..Len(Conf.scalars)

PutScalar == /\ More /\ Root1 /\ n' = n + 1 /\ Conf.scalars # <<>>
             /\ \E s \in Pick(Scalars), g \in Pick(Tags), a \in Pick(AnchorChoice), st \in Pick(Styles) :
                  Add(Raw(Conf.scalars[s].t, Conf.scalars[s].v, Conf.tags[g], a, st), stack)
Words == 1..Len(Conf.pieces)
PutMix == /\ More /\ Root1 /\ n' = n + 1 /\ Conf.mix > 0
          /\ \E g \in Pick(Tags), a \in Pick(AnchorChoice), st \in Pick(Styles),
                k \in Pick(1..Conf.mix), w1 \in Pick(Words), w2 \in Pick(Words), w3 \in Pick(Words), w4 \in Pick(Words) :
                  Add(Raw("str", Flat(SubSeq(<<Conf.pieces[w1], Conf.pieces[w2], Conf.pieces[w3], Conf.pieces[w4]>>, 1, k)),
                          Conf.tags[g], a, st), stack)
PutAlias == /\ More /\ n' = n + 1 /\ AliasSet # {} /\ stack # <<>>
            /\ \E x \in Pick(AliasSet), st \in Pick(Styles) : Add(Raw("alias", x, <<>>, <<>>, st), stack)
Open == /\ More /\ n < Conf.size /\ n' = n + 1 /\ Len(stack) < Conf.level
        /\ \E t \in {"seq", "map"}, g \in Pick(Tags), a \in Pick(AnchorChoice), st \in Pick(Styles) :
              stack' = Append(stack, Raw(t, <<>>, Conf.tags[g], a, st))
        /\ UNCHANGED <<docs, anc>>
Close == /\ stack # <<>> /\ ~Odd /\ (n >= Conf.size \/ Now(IF stack[Len(stack)].v = <<>> THEN 6 ELSE 2)) /\ UNCHANGED n
         /\ LET f == stack[Len(stack)]
            IN Add([f EXCEPT !.v = IF f.t = "map" THEN Pairs(f.v) ELSE f.v], SubSeq(stack, 1, Len(stack) - 1))
Next == PutScalar \/ PutMix \/ PutAlias \/ Open \/ Close

Complete == stack = <<>> /\ docs # <<>>

------------------------------------------------------------------------------
(* The data of the tree, as a parser has to return it. *)
RECURSIVE Substituted(_, _)
Substituted(x, env) ==      \* the aliases are replaced by the values
    CASE x.t = "alias" -> Substituted(env[FindAnchor(env, x.v, 1)][2], env)
      [] x.t = "seq" -> [t |-> "seq", tag |-> OwnTag(x), v |-> [i \in 1..Len(x.v) |-> Substituted(x.v[i], env)]]
      [] x.t = "map" -> [t |-> "map", tag |-> OwnTag(x),
                         v |-> InsertAll(<<>>, TLCEval([i \in 1..Len(x.v) |-> <<Substituted(x.v[i][1], env), Substituted(x.v[i][2], env)>>]), 1)]
      [] OTHER -> [t |-> x.t, v |-> x.v, tag |-> OwnTag(x)]
RECURSIVE Bare(_)
Bare(x) ==      \* a parsed node without the positions
    [t |-> x.t, tag |-> OwnTag(x),
     v |-> CASE x.t = "seq" -> [i \in 1..Len(x.v) |-> Bare(x.v[i])]
             [] x.t = "map" -> [i \in 1..Len(x.v) |-> <<Bare(x.v[i][1]), Bare(x.v[i][2])>>]
             [] OTHER -> x.v]
RECURSIVE Plainly(_)
Plainly(x) ==      \* the values only
    [t |-> x.t, v |-> CASE x.t = "seq" -> [i \in 1..Len(x.v) |-> Plainly(x.v[i])]
                        [] x.t = "map" -> [i \in 1..Len(x.v) |-> <<Plainly(x.v[i][1]), Plainly(x.v[i][2])>>]
                        [] OTHER -> x.v]
RECURSIVE AnyNode(_, _)
AnyNode(x, t) == \/ x.t = t
                 \/ x.t = "seq" /\ \E i \in 1..Len(x.v) : AnyNode(x.v[i], t)
                 \/ x.t = "map" /\ \E i \in 1..Len(x.v) : AnyNode(x.v[i][1], t) \/ AnyNode(x.v[i][2], t)
=============================================================================
