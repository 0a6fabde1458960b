------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* The document loader: nodes, collections and the document stream.        *)
(* See Parser for the state and the results.  A collection returns a value *)
(* [t, v], a node parser returns a node.                                   *)
(***************************************************************************)
EXTENDS Parser

MaxLevel == 200          \* nesting limit

Chars2(a, b) == <<a, b>>
NullVal == Val("null", <<>>)
NullWords  == { <<"~">>, <<"n","u","l","l">>, <<"N","u","l","l">>, <<"N","U","L","L">> }
TrueWords  == { <<"t","r","u","e">>, <<"T","r","u","e">>, <<"T","R","U","E">> }
FalseWords == { <<"f","a","l","s","e">>, <<"F","a","l","s","e">>, <<"F","A","L","S","E">> }
NanWords   == { <<".","n","a","n">>, <<".","N","a","N">>, <<".","N","A","N">> }
InfWords   == { <<".","i","n","f">>, <<".","I","n","f">>, <<".","I","N","F">> }
NInfWords  == { <<"-">> \o w : w \in InfWords }
Resolve(s) ==
    CASE s \in NullWords  -> NullVal
      [] s \in TrueWords  -> Val("bool", <<"t","r","u","e">>)
      [] s \in FalseWords -> Val("bool", <<"f","a","l","s","e">>)
      [] s \in NanWords   -> Val("float", <<"N","a","N">>)
      [] s \in InfWords   -> Val("float", <<"i","n","f">>)
      [] s \in NInfWords  -> Val("float", <<"-","i","n","f">>)
      [] OTHER            -> Val("str", s)

RECURSIVE FindAnchor(_, _, _)
FindAnchor(a, n, i) == IF i > Len(a) THEN 0 ELSE IF a[i][1] = n THEN i ELSE FindAnchor(a, n, i + 1)

DocEnd(d, S) == Eof(d, S) \/ DocMark(d, S, Start).k = "ok" \/ DocMark(d, S, End).k = "ok"

RECURSIVE NodeAt(_, _, _, _, _, _), SeqFlow(_, _, _, _), MapFlow(_, _, _, _),
          SeqBlock(_, _, _, _, _), MapBlock(_, _, _, _, _, _)

Scalar(d, S, l, map, flow) == NodeAt(d, S, l, TRUE, map, flow)
ScalarFlow(d, S, l, flow)  == NodeAt(d, S, l, FALSE, FALSE, flow)

(* Turn a mismatch into an error. *)
Need(r, name) == IF r.k = "mis" THEN Er(r.s, name) ELSE r

(* A number, an alias, a quoted or plain string, a flow collection or null. *)
Term(d, S, l, flow) ==
    LET n == Number(d, S, flow)
    IN IF n.k = "ok" THEN n
       ELSE LET a == Name(d, n.s, "*")
            IN IF a.k = "ok"
               THEN LET an == a.s.anc[Len(a.s.anc)]
                        i  == FindAnchor(an, a.v, 1)
                    IN IF a.s.cy THEN Ok(a.s, Val("alias", a.v))
                       ELSE IF i = 0 THEN Er(a.s, "anchor referenced before definition")
                       ELSE Ok([a.s EXCEPT !.it = an[i][2].tag], [Val(an[i][2].t, an[i][2].v) EXCEPT !.c = an[i][2].c])
               ELSE LET q1 == Quoted(d, a.s, "'")
                        q2 == Quoted(d, q1.s, "\"")
                    IN IF q1.k = "err" THEN q1
                       ELSE IF q1.k = "ok" THEN Ok(q1.s, Val("str", q1.v))
                       ELSE IF q2.k = "err" THEN q2
                       ELSE IF q2.k = "ok" THEN Ok(q2.s, Val("str", Escape(q2.v)))
                       ELSE LET p == Plain(d, q2.s, l, flow)
                            IN IF p.k = "ok" THEN Ok(p.s, Resolve(p.v))
                               ELSE IF Here(d, p.s) = "["
                               THEN SeqFlow(d, To(p.s, p.s.p + 1), l, <<>>)
                               ELSE IF Here(d, p.s) = "{"
                               THEN MapFlow(d, To(p.s, p.s.p + 1), l, <<>>)
                               ELSE Ok(Bwd(p.s), NullVal)

(* A block string, a block collection or a terminal. *)
Content(d, S, l, map, flow) ==
    LET a == BlockStr(d, S, Max(l, 1), FALSE)
        b == BlockStr(d, a.s, Max(l, 1), TRUE)
    IN IF a.k = "ok" THEN Ok(a.s, Val("str", a.v))
       ELSE IF b.k = "ok" THEN Ok(b.s, Val("str", b.v))
       ELSE LET s == SeqBlock(d, Bwd(b.s), l, map, <<>>)
            IN IF s.k # "mis" THEN s
               ELSE LET m == MapBlock(d, s.s, l, map, flow, <<>>)
                    IN IF m.k # "mis" THEN m ELSE Term(d, m.s, l, flow)

(* The properties and the content of a node. *)
NodeAt(d, S, l, full, map, flow) ==
    IF l > MaxLevel THEN Er(S, "nesting level")
    ELSE
    LET a1 == Name(d, S, "&")
        b1 == IF a1.k = "ok" THEN Bound(d, a1.s) ELSE Ok(a1.s, <<>>)
    IN IF b1.k # "ok" THEN b1
    ELSE
    LET tg == Tag(d, Fwd(b1.s))
        b2 == IF tg.k = "ok" THEN Bound(d, tg.s) ELSE Ok(tg.s, <<>>)
    IN IF tg.k = "err" THEN tg ELSE IF b2.k # "ok" THEN b2
    ELSE
    LET a2 == Name(d, Fwd(b2.s), "&")
        b3 == IF a2.k = "ok" /\ a1.k # "ok" THEN Bound(d, a2.s) ELSE Ok(a2.s, <<>>)
    IN IF a2.k = "ok" /\ a1.k = "ok" THEN Er(a2.s, "duplicated anchor definition")
    ELSE IF b3.k # "ok" THEN b3
    ELSE
    LET S3   == [Fwd(b3.s) EXCEPT !.it = <<>>]
        name == IF a1.k = "ok" THEN a1.v ELSE IF a2.k = "ok" THEN a2.v ELSE <<>>
        y    == IF full THEN Content(d, S3, l, map, flow) ELSE Term(d, S3, l, flow)
    IN IF y.k # "ok" THEN y
    ELSE
    LET S4   == Fwd(y.s)
        tag  == IF tg.k = "ok" /\ tg.v # <<>> THEN tg.v ELSE S4.it
        \* an alias is in the cell of its anchor
        node == Node(y.v, tag, S3.p - 1, IF y.v.c = 0 THEN 256 * S3.p + l ELSE y.v.c)
        S5   == [S4 EXCEPT !.it = <<>>]
        n    == Len(S5.anc)
    IN IF name = <<>> THEN Ok(S5, node)
    ELSE IF FindAnchor(S5.anc[n], name, 1) # 0 THEN Er(S5, "duplicated anchor definition")
    ELSE Ok([S5 EXCEPT !.anc[n] = Append(@, <<name, node>>)], node)

SeqFlow(d, S, l, acc) ==
    LET F == Fwd(SkipWs(d, S))
    IN IF Here(d, F) = "]" THEN Ok(Fwd(To(F, F.p + 1)), Val("seq", acc))
       ELSE LET r == Need(Scalar(d, F, l + 1, FALSE, TRUE), "flow sequence item")
            IN IF r.k # "ok" THEN r
               ELSE LET v == Append(acc, r.v)
                        E == SkipWs(d, r.s)
                    IN IF Here(d, E) = "," THEN SeqFlow(d, To(E, E.p + 1), l, v)
                       ELSE IF Here(d, E) = "]" THEN Ok(Fwd(To(E, E.p + 1)), Val("seq", v))
                       ELSE Er(Bwd(E), "flow sequence terminator")

Complex(d, S) ==
    LET q == Sym(d, S, {"?"}) IN IF q.k = "ok" THEN Bound(d, q.s) ELSE q

MapFlow(d, S, l, acc) ==
    LET F == Fwd(SkipWs(d, S))
    IN IF Here(d, F) = "}" THEN Ok(Fwd(To(F, F.p + 1)), Val("map", acc))
       ELSE
       LET q == Complex(d, F)
           k == Need(IF q.k = "ok" THEN Scalar(d, Fwd(q.s), l + 1, FALSE, TRUE)
                     ELSE ScalarFlow(d, q.s, l + 1, TRUE), "flow map key")
       IN IF k.k # "ok" THEN k
       ELSE
       LET C == SkipWs(d, IF q.k = "ok" THEN GapOpt(d, k.s) ELSE k.s)
       IN IF Here(d, C) # ":" THEN Er(Bwd(C), "flow map splitter")
       ELSE
       LET v == Need(Scalar(d, Fwd(SkipWs(d, To(C, C.p + 1))), l + 1, FALSE, TRUE), "flow map value")
       IN IF v.k # "ok" THEN v
       ELSE
       LET m == Insert(acc, k.v, v.v)
           E == SkipWs(d, v.s)
       IN IF Here(d, E) = "," THEN MapFlow(d, To(E, E.p + 1), l, m)
          ELSE IF Here(d, E) = "}" THEN Ok(Fwd(To(E, E.p + 1)), Val("map", m))
          ELSE Er(Bwd(E), "flow map terminator")

(* The first item of a block collection. *)
FirstItem(d, S, l, map, deeper) ==
    LET g == Gap(d, S, TRUE)
    IN IF map
       THEN IF g.k # "ok" THEN g
            ELSE IF deeper THEN IndDeeper(d, g.s, l) ELSE IndDefine(d, g.s, l)
       ELSE IF g.k = "ok" THEN Ind(d, g.s, l) ELSE Ok(g.s, <<>>)

SeqBlock(d, S0, l, map, acc) ==
    LET S    == Fwd(S0)
        done(X) == Ok(Bwd(X), Val("seq", acc))
        item(X) == LET r == Need(Scalar(d, Fwd(X), l + 1, FALSE, FALSE), "sequence item")
                   IN IF r.k # "ok" THEN r ELSE SeqBlock(d, r.s, l, map, Append(acc, r.v))
    IN IF acc = <<>>
       THEN LET f == FirstItem(d, S, l, map, FALSE)
                m == IF f.k = "ok" THEN Sym(d, f.s, {"-"}) ELSE f
                b == IF m.k = "ok" THEN Bound(d, m.s) ELSE m
            IN IF b.k # "ok" THEN b ELSE item(b.s)
       ELSE LET g == Gap(d, S, TRUE)
            IN IF g.k # "ok" /\ ~DocEnd(d, g.s) THEN Er(g.s, "sequence terminator")
               ELSE IF DocEnd(d, g.s) THEN done(g.s)
               ELSE LET i == Ind(d, g.s, l)
                        m == IF i.k = "ok" THEN Sym(d, i.s, {"-"}) ELSE i
                        b == IF m.k = "ok" THEN Bound(d, m.s) ELSE m
                    IN IF b.k # "ok" THEN done(b.s) ELSE item(b.s)

MapBlock(d, S0, l, map, flow, acc) ==
    LET S    == Fwd(S0)
        done(X) == Ok(Bwd(X), Val("map", acc))
        \* the key, after the indentation
        key(X) == LET q == Complex(d, X)
                      k == IF q.k = "ok" THEN Need(Scalar(d, Fwd(q.s), l + 1, TRUE, flow), "map key")
                           ELSE ScalarFlow(d, q.s, l + 1, flow)
                      g == Gap(d, k.s, TRUE)
                      i == IF g.k = "ok" THEN Ind(d, g.s, l) ELSE Ok(g.s, <<>>)
                  IN IF k.k # "ok" THEN <<q.k = "ok", k>>
                     ELSE IF q.k # "ok" THEN <<FALSE, k>>
                     ELSE IF i.k # "ok" THEN <<TRUE, Er(i.s, "map splitter")>>
                     ELSE <<TRUE, Ok(i.s, k.v)>>
        \* the ":" indicator
        colon(X) == LET W == Ws(d, X)
                        c == Sym(d, W, {":"})
                    IN IF c.k = "ok" THEN Bound(d, c.s) ELSE c
        value(X, k) == LET v == Need(Scalar(d, Fwd(X), l + 1, TRUE, FALSE), "map value")
                       IN IF v.k # "ok" THEN v
                          ELSE MapBlock(d, v.s, l, map, flow, Insert(acc, k, v.v))
    IN IF acc = <<>>
       THEN LET f == FirstItem(d, S, l, map, TRUE)
            IN IF f.k # "ok" THEN f
               ELSE LET kk == key(Fwd(f.s))
                        k  == kk[2]
                        c  == colon(k.s)
                    IN IF k.k # "ok" THEN k
                       ELSE IF c.k = "ok" THEN value(c.s, k.v)
                       ELSE IF kk[1] THEN Er(c.s, "map splitter")
                       ELSE Ok([c.s EXCEPT !.it = k.v.tag], [Val(k.v.t, k.v.v) EXCEPT !.c = k.v.c])
       ELSE LET g == Gap(d, S, TRUE)
            IN IF g.k # "ok" /\ ~DocEnd(d, g.s) THEN Er(g.s, "map terminator")
               ELSE IF DocEnd(d, g.s) THEN done(g.s)
               ELSE LET i == Ind(d, g.s, l)
                    IN IF i.k # "ok" THEN done(i.s)
                       ELSE LET k == Need(key(Fwd(i.s))[2], "map key")
                                c == colon(k.s)
                            IN IF k.k # "ok" THEN k
                               ELSE IF c.k # "ok" THEN Er(c.s, "map splitter")
                               ELSE value(c.s, k.v)

------------------------------------------------------------------------------
(* The document stream. *)
RECURSIVE Directives(_, _)
Directives(d, S) ==
    LET r == Directive(d, Fwd(S))
    IN IF r.k = "ok" THEN Directives(d, r.s)
       ELSE IF r.k = "mis" THEN Ok([r.s EXCEPT !.e = S.e], <<>>) ELSE r

Doc(d, S) ==
    LET b  == Leave(S, Bound(d, Fwd(S)))
        S1 == [Fwd(GapOpt(d, b.s)) EXCEPT !.anc = Append(@, <<>>), !.ind = Resize(@, 0)]
        r  == Scalar(d, S1, 0, FALSE, FALSE)
    IN IF r.k # "ok" THEN r
       ELSE Ok(Fwd(DocMark(d, GapOpt(d, r.s), End).s), r.v)

RECURSIVE Docs(_, _, _)
Docs(d, S, acc) ==
    LET r == Doc(d, S)
    IN IF r.k # "ok" THEN r
       ELSE LET G == GapOpt(d, r.s)
                v == Append(acc, r.v)
            IN IF Eof(d, G) THEN Ok(G, v)
               ELSE LET m == DocMark(d, G, Start)
                    IN IF m.k # "ok" THEN Er(m.s, "document splitter") ELSE Docs(d, m.s, v)

(* The result of parsing the text d: the nodes and the anchors of each
   document, or the name and the position of the error. *)
Load(d, cyclic) ==
    LET S0 == [State0 EXCEPT !.cy = cyclic]
        r  == Directives(d, GapOpt(d, S0))
        D  == DocMark(d, GapOpt(d, r.s), Start).s
        v  == IF r.k = "ok" THEN Docs(d, D, <<>>) ELSE r
    IN IF v.k = "ok" THEN [ok |-> TRUE, docs |-> v.v, anc |-> v.s.anc]
       ELSE [ok |-> FALSE, err |-> IF v.k = "err" THEN v.v ELSE "not matched",
             p |-> IF v.k = "err" THEN v.s.p - 1 ELSE 0]
=============================================================================
