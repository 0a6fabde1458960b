------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* The parser as an API: histories of its calls on a text.                 *)
(*   tokens   the pieces of the text, len  the number of them              *)
(*   ops      the calls [o, ...], count  the number of them                *)
(*   all      TRUE for all histories, otherwise a random one               *)
(* A call leaves the read position p and the eaten position e:             *)
(*   k "ok"   p is past the match, x is the value, e is the same           *)
(*   k "mis"  p is back at e, or at the start of the call if it has a      *)
(*            context of its own                                           *)
(*   k "err"  the name of the error at p                                   *)
(* Contexts are nested by "enter" and "leave".                             *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
Pick(S) == IF Conf.all THEN S ELSE {RandomElement(S)}

VARIABLES doc,      \* the rest of the text, from the last feed
          n,        \* the number of its tokens
          st,       \* the state of the parser
          base,     \* the number of the characters before the rest
          outer,    \* the eaten positions of the contexts
          nd,       \* the number of the documents
          whole,    \* the text
          log
vars == <<doc, n, st, base, outer, nd, whole, log>>
Init == /\ doc = <<>> /\ n = 0 /\ st = State0 /\ base = 0 /\ outer = <<>> /\ nd = 0 /\ whole = <<>> /\ log = <<>>

Type == /\ log = <<>> /\ n < Conf.len
        /\ \E t \in Pick(1..Len(Conf.tokens)) :
              doc' = doc \o Conf.tokens[t] /\ whole' = doc' /\ n' = n + 1
        /\ UNCHANGED <<st, base, outer, nd, log>>

------------------------------------------------------------------------------
Set(s) == {s[i] : i \in 1..Len(s)}
\* at least lo and at most hi characters of the class, -1 is any number
Take(d, S, C, neg, lo, hi) ==
    LET j == IF neg THEN SkipOut(d, S.p, C) ELSE SkipIn(d, S.p, C)
        i == IF hi >= 0 THEN Min(j, S.p + hi) ELSE j
    IN IF i - S.p < lo THEN Mis(Bwd(S)) ELSE Ok(To(S, i), <<>>)
RECURSIVE SymSeq(_, _, _)
SymSeq(d, S, w) == IF w = <<>> THEN Ok(S, <<>>)
                   ELSE LET r == Sym(d, S, {w[1]}) IN IF r.k = "ok" THEN SymSeq(d, r.s, Tail(w)) ELSE r
Opened(d, S, c, F(_)) == LET r == Sym(d, S, {c}) IN IF r.k = "ok" THEN F(r.s) ELSE r
Comment(d, S) == LET W == Ws(d, S)
                     c == Sym(d, W, {"#"})
                 IN IF c.k = "ok" THEN Ok(Until(d, c.s, NLs), <<>>) ELSE c
IdentOp(d, S) == LET i == IdentEnd(d, S.p) IN IF i = S.p THEN Mis(Bwd(S)) ELSE Ok(To(S, i), <<>>)
Wrapped(d, S, l, fold) == Leave(S, BlockLoop(d, S, l, fold, 0, TRUE, <<>>))
ChompOp(d, S, t) == LET c == Here(d, S)
                    IN IF c \in {"-", "+"} THEN Ok(To(S, S.p + 1), Chomp(c, t)) ELSE Ok(S, Chomp("", t))
\* the anchors of a node out of the documents
Table(S) == IF Len(S.anc) = nd THEN [S EXCEPT !.anc = Append(@, <<>>)] ELSE S
Call(o, S) ==
    CASE o.o = "sym" -> Sym(doc, S, {o.c[1]})
      [] o.o = "sym_set" -> Sym(doc, S, Set(o.c))
      [] o.o = "sym_seq" -> SymSeq(doc, S, o.c)
      [] o.o = "take" -> Take(doc, S, Set(o.c), o.neg, o.lo, o.hi)
      [] o.o = "ws" -> Take(doc, S, Blank, FALSE, o.lo, o.hi)
      [] o.o = "inv" -> Take(doc, S, AnyWs, FALSE, o.lo, o.hi)
      [] o.o = "ind" -> Ind(doc, S, o.l)
      [] o.o = "ind_define" -> IndDefine(doc, S, o.l)
      [] o.o = "nl" -> Nl(doc, S)
      [] o.o = "gap" -> Gap(doc, S, o.b)
      [] o.o = "comment" -> Comment(doc, S)
      [] o.o = "bound" -> Bound(doc, S)
      [] o.o = "complex" -> Complex(doc, S)
      [] o.o = "int" -> IntNum(doc, S)
      [] o.o = "float" -> Float(doc, S)
      [] o.o = "sci" -> SciFloat(doc, S)
      [] o.o = "single" -> Quoted(doc, S, "'")
      [] o.o = "double" -> Quoted(doc, S, "\"")
      [] o.o = "plain" -> Plain(doc, S, o.l, o.b)
      [] o.o = "literal" -> BlockStr(doc, S, o.l, FALSE)
      [] o.o = "folded" -> BlockStr(doc, S, o.l, TRUE)
      [] o.o = "wrapped" -> Wrapped(doc, S, o.l, o.b)
      [] o.o = "chomp" -> ChompOp(doc, S, o.c)
      [] o.o = "escape" -> Ok(S, Escape(o.c))
      [] o.o = "identifier" -> IdentOp(doc, S)
      [] o.o = "tag" -> Tag(doc, S)
      [] o.o = "anchor" -> Name(doc, S, "&")
      [] o.o = "anchor_use" -> Name(doc, S, "*")
      [] o.o = "directive" -> Directive(doc, S)
      [] o.o = "err" -> Er(S, "text")
      [] o.o = "fwd" -> Ok(Fwd(S), <<>>)
      [] o.o = "bwd" -> Ok(Bwd(S), <<>>)
      [] o.o = "back" -> Ok(To(S, Max(1, S.p - o.l)), <<>>)
      [] o.o = "doc_end" -> Ok(S, DocEnd(doc, S))
      [] o.o = "doc" -> Doc(doc, [S EXCEPT !.anc = SubSeq(@, 1, nd)])
      [] o.o = "scalar" -> Scalar(doc, Table(S), o.l, o.b, o.f)
      [] o.o = "scalar_flow" -> ScalarFlow(doc, Table(S), o.l, o.f)
      [] o.o = "scalar_term" -> Term(doc, Table(S), o.l, o.f)
      [] o.o = "seq_flow" -> Opened(doc, Table(S), "[", LAMBDA X : SeqFlow(doc, X, o.l, <<>>))
      [] o.o = "map_flow" -> Opened(doc, Table(S), "{", LAMBDA X : MapFlow(doc, X, o.l, <<>>))
      [] o.o = "seq" -> SeqBlock(doc, Table(S), o.l, o.b, <<>>)
      [] o.o = "map" -> MapBlock(doc, Table(S), o.l, o.b, o.f, <<>>)

Wrong(d, r) == PrintT("WRONG " \o ToJson([d |-> d, r |-> r])) /\ FALSE
High == {"doc_end", "doc", "scalar", "scalar_flow", "scalar_term", "seq_flow", "map_flow", "seq", "map"}
Low == {"sym", "sym_set", "sym_seq", "take", "ws", "inv", "ind"}
\* calls at any eaten position
Free == Low \cup {"bwd", "back", "fwd", "err", "escape", "chomp"}
\* a document starts without indentation
Can(o) == (o.o = "doc" => st.ind[1] = 0) /\ (o.o \in High => outer = <<>>)
\* what holds for each call
Contract(o, S, r) ==
    /\ r.s.p \in 1..(Len(doc) + 1)
    /\ r.k = "mis" => r.s.p \in {S.p, S.e}
    /\ o.o \in Low /\ r.k = "mis" => r.s.p = S.e
    \* the grammar moves forward and keeps the eaten position
    /\ r.k = "ok" /\ o.o \notin Free \cup {"doc_end"} => r.s.p >= S.p
    /\ r.k = "ok" /\ o.o \notin High \cup {"fwd"} => r.s.e = S.e
    /\ o.o \in Low => r.s.e = S.e
Entry(o, r) == [o |-> o, k |-> r.k, x |-> r.v, p |-> r.s.p - 1, e |-> r.s.e - 1, base |-> base]
Note(o, S, b) == [o |-> [o |-> o], k |-> "ok", x |-> <<>>, p |-> S.p - 1, e |-> S.e - 1, base |-> b]
\* the grammar is called at the eaten position
Do(i) == LET o == Conf.ops[i]
             to == o.o \notin Free /\ st.e # st.p
             S == IF to THEN Fwd(st) ELSE st
             r == TLCEval(Call(o, S))
         IN /\ Contract(o, S, r) \/ Wrong(<<doc, S.p, S.e>>, <<o, r>>)
            /\ st' = r.s
            /\ log' = (IF to THEN Append(log, Note("fwd", S, base)) ELSE log) \o <<Entry(o, r)>>
            /\ nd' = IF o.o = "doc" /\ r.k = "ok" THEN nd + 1 ELSE nd
            /\ UNCHANGED <<doc, n, base, outer, whole>>
\* the public fields
Seek == /\ \E p \in Pick(1..(Len(doc) + 1)) : \E e \in Pick(1..p) :
              st' = [st EXCEPT !.p = p, !.e = e]
        /\ log' = Append(log, Note("seek", st', base))
        /\ UNCHANGED <<doc, n, base, outer, nd, whole>>
Enter == /\ outer' = Append(outer, st.e) /\ st' = Fwd(st) /\ log' = Append(log, Note("enter", st', base))
         /\ UNCHANGED <<doc, n, base, nd, whole>>
Exit == /\ outer # <<>>
        /\ outer' = SubSeq(outer, 1, Len(outer) - 1)
        /\ st' = [st EXCEPT !.e = outer[Len(outer)]]
        /\ log' = Append(log, Note("leave", st', base))
        /\ UNCHANGED <<doc, n, base, nd, whole>>
\* the rest of the text is a new one
Feed == /\ outer = <<>>
        /\ base' = base + st.p - 1
        /\ doc' = SubSeq(doc, st.p, Len(doc))
        /\ st' = [st EXCEPT !.p = 1, !.e = 1]
        /\ log' = Append(log, Note("feed", st', base'))
        /\ UNCHANGED <<n, outer, nd, whole>>
More == n = Conf.len /\ Len(log) < Conf.count
Calls == {i \in 1..Len(Conf.ops) : Can(Conf.ops[i])}
Move(m) == CASE m = 1 -> Seek
             [] m = 2 -> IF Len(outer) < 3 THEN Enter ELSE Exit
             [] m = 3 -> IF outer = <<>> THEN Enter ELSE Exit
             [] m = 4 -> IF outer = <<>> THEN Feed ELSE Exit
             [] OTHER -> \E i \in Pick(Calls) : Do(i)
Next == \/ Type
        \/ More /\ Conf.moves /\ \E m \in Pick(1..20) : Move(m)
        \/ More /\ ~Conf.moves /\ IF log = <<>> THEN Seek ELSE \E i \in Pick(Calls) : Do(i)
        \* the contexts are left at the end
        \/ Len(log) >= Conf.count /\ Exit

Read == IF Len(log) < Conf.count \/ outer # <<>> THEN TRUE
        ELSE PrintT(ToJson([k |-> "cursor", d |-> whole, log |-> log]))
=============================================================================
