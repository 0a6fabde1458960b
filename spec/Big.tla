--------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Big data: patterns that repeat items, pairs, documents or levels of a   *)
(* collection from conf.from to conf.to times, in the place of the data    *)
(* put together event by event.  A pattern is a sequence of documents, a   *)
(* template of a node is a node [t, v, tag, a], or                     *)
(*   [x |-> "row", v]       the items v again and again                    *)
(*   [x |-> "chain", w, c]  w around w around ... c                        *)
(*   [x |-> "hole"]         the inner level of a chain                     *)
(* The character 1 in a text stands for the number of the repetition.      *)
(***************************************************************************)
EXTENDS Events

RECURSIVE IndexDigits(_)
IndexDigits(m) == (IF m >= 10 THEN IndexDigits(m \div 10) ELSE <<>>) \o <<SubSeq("0123456789", (m % 10) + 1, (m % 10) + 1)>>
Mark == Conf.mark[1]
RECURSIVE Numbered(_, _)
Numbered(w, m) == IF w = <<>> THEN <<>> ELSE (IF w[1] = Mark THEN IndexDigits(m) ELSE <<w[1]>>) \o Numbered(Tail(w), m)

Is(t, x) == "x" \in DOMAIN t /\ t.x = x
\* the nodes of a template in the repetition i, h is the inner level, the
\* styles are taken in turn from the number o
RECURSIVE Grow(_, _, _, _, _), GrowAll(_, _, _, _, _, _), Rows(_, _, _, _, _), Chain(_, _, _, _, _)
Grow(t, k, i, h, o) ==
    CASE Is(t, "hole") -> <<h>>
      [] Is(t, "row") -> Rows(t.v, k, 1, h, o)
      [] Is(t, "chain") -> <<Chain(t, k, 1, h, o)>>
      [] OTHER -> <<[t |-> t.t, tag |-> Numbered(t.tag, i), a |-> Numbered(t.a, i), st |-> 1 + ((i + o) % Len(Conf.styles)),
                     v |-> CASE t.t = "seq" -> GrowAll(t.v, k, i, h, o, 1)
                             [] t.t = "map" -> Pairs(GrowAll(t.v, k, i, h, o, 1))
                             [] OTHER -> Numbered(t.v, i)]>>
GrowAll(v, k, i, h, o, j) == IF j > Len(v) THEN <<>> ELSE Grow(v[j], k, i, h, o + j) \o GrowAll(v, k, i, h, o, j + 1)
Rows(v, k, i, h, o) == IF i > k THEN <<>> ELSE GrowAll(v, k, i, h, o, 1) \o Rows(v, k, i + 1, h, o)
Chain(t, k, i, h, o) == IF i > k THEN Grow(t.c, k, i, h, o)[1] ELSE Grow(t.w, k, i, Chain(t, k, i + 1, h, o), o)[1]

RECURSIVE AncOf(_), AncAll(_, _)
AncAll(v, i) == IF i > Len(v) THEN <<>> ELSE AncOf(v[i]) \o AncAll(v, i + 1)
AncOf(x) == (CASE x.t = "seq" -> AncAll(x.v, 1)
               [] x.t = "map" -> AncAll(Flat([i \in 1..Len(x.v) |-> <<x.v[i][1], x.v[i][2]>>]), 1)
               [] OTHER -> <<>>) \o (IF x.a = <<>> THEN <<>> ELSE << <<x.a, x>> >>)
DocsOf(p, k, o) == LET r == GrowAll(Conf.patterns[p], k, 1, <<>>, o, 1)
                IN [i \in 1..Len(r) |-> [root |-> r[i], anc |-> AncOf(r[i])]]
\* n is the number of the repetitions, the stack has the number of the pattern
BInit == /\ n = Conf.from /\ anc = <<>> /\ stack = <<>> /\ docs = <<>>
Grown == docs # <<>>
BNext == \/ /\ ~Grown
            /\ \E p \in 1..Len(Conf.patterns), k \in Conf.from..Conf.to, o \in Pick(1..Len(Conf.styles)) :
                  docs' = DocsOf(p, k, o) /\ n' = k
            /\ UNCHANGED <<stack, anc>>
=============================================================================
