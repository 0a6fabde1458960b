------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The low-level parser: a cursor machine with two positions and an        *)
(* indentation stack, and the sub-parsers built from it.                   *)
(*                                                                         *)
(* The state is the record S:                                              *)
(*   p     read position (the next character is d[p])                      *)
(*   e     eaten position, where the cursor returns after a mismatch       *)
(*   ind   indentation stack, ind[1] is the indentation of level 0         *)
(*   ver   TRUE if the version directive has been seen                     *)
(*   tags  tag handles                                                     *)
(*   anc   anchors: for each document a sequence of <<name, node>>         *)
(*   it    tag of the scalar found on the next line                        *)
(*   cy    cyclic mode                                                     *)
(* A sub-parser maps the text d and the state S to                         *)
(*   [k |-> "ok", s, v]   matched with the value v                         *)
(*   [k |-> "mis", s]     mismatched, another one can be tried             *)
(*   [k |-> "err", s, v]  failed, v is the name of the error at s.p        *)
(***************************************************************************)
EXTENDS Data

Ok(S, v) == [k |-> "ok", s |-> S, v |-> v]
Mis(S)   == [k |-> "mis", s |-> S, v |-> <<>>]
Er(S, n) == [k |-> "err", s |-> S, v |-> n]

Prefix == CorePrefix
Bang   == <<"!">>
BangBang == <<"!", "!">>

State0 == [p |-> 1, e |-> 1, ind |-> <<0>>, ver |-> FALSE,
           tags |-> (Bang :> <<>>) @@ (BangBang :> Prefix),
           anc |-> <<>>, it |-> <<>>, cy |-> FALSE]

Fwd(S) == [S EXCEPT !.e = S.p]
Bwd(S) == [S EXCEPT !.p = S.e]
To(S, i) == [S EXCEPT !.p = i]
Eof(d, S) == S.p > Len(d)
Here(d, S) == At(d, S.p)
Txt(d, S) == IF S.e < S.p THEN SubSeq(d, S.e, S.p - 1) ELSE <<>>
\* leave a context: the eaten position of the caller is restored
Leave(S, r) == [r EXCEPT !.s.e = S.e]

Sym(d, S, C) == IF S.p <= Len(d) /\ d[S.p] \in C THEN Ok(To(S, S.p + 1), <<>>) ELSE Mis(Bwd(S))
Many(d, S, C) == To(S, SkipIn(d, S.p, C))
Many1(d, S, C) == LET i == SkipIn(d, S.p, C)
                  IN IF i = S.p THEN Mis(Bwd(S)) ELSE Ok(To(S, i), <<>>)
Until(d, S, C) == To(S, SkipOut(d, S.p, C))
Until1(d, S, C) == LET i == SkipOut(d, S.p, C)
                   IN IF i = S.p THEN Mis(Bwd(S)) ELSE Ok(To(S, i), <<>>)
Ws(d, S) == Many(d, S, Blank)
SkipWs(d, S) == Many(d, S, AnyWs)

\* the symbol sequence in a context of its own
Word(d, S, w) == IF S.p + Len(w) - 1 <= Len(d) /\ SubSeq(d, S.p, S.p + Len(w) - 1) = w
                 THEN Ok(To(S, S.p + Len(w)), <<>>) ELSE Mis(S)

Bound(d, S) ==
    IF Eof(d, S) THEN Ok(S, <<>>)
    ELSE IF d[S.p] \in BoundSet THEN Ok(Ws(d, S), <<>>) ELSE Mis(Bwd(S))

DocMark(d, S, w) ==
    LET r == Word(d, S, w)
    IN IF r.k = "ok" /\ (Eof(d, r.s) \/ Here(d, r.s) \in WsNl) THEN r ELSE Mis(S)
Start == <<"-", "-", "-">>
End   == <<".", ".", ".">>

Nl(d, S) ==
    LET a == Here(d, S)  b == At(d, S.p + 1)
    IN IF a \in NLs THEN Ok(To(S, S.p + (IF b \in NLs /\ b # a THEN 2 ELSE 1)), <<>>) ELSE Mis(S)

------------------------------------------------------------------------------
(* Indentation.  The stack keeps the relative indentation of each level. *)
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
\* levels that were never defined are indented by 2
Resize(ind, l) == IF l + 1 > Len(ind) THEN ind \o [i \in 1..(l + 1 - Len(ind)) |-> 2]
                  ELSE SubSeq(ind, 1, l + 1)
Spaces(d, i, n) == i + n - 1 <= Len(d) /\ \A j \in i..(i + n - 1) : d[j] = " "
Ind(d, S, l) ==
    LET ind == Resize(S.ind, l)
        n   == SumTo(ind, l + 1)
        S1  == [S EXCEPT !.ind = ind]
    IN IF Spaces(d, S.p, n) THEN Ok(To(S1, S.p + n), <<>>) ELSE Mis(Bwd(S1))
IndDefine(d, S, l) ==
    LET r == IF l > 0 THEN Ind(d, S, l - 1) ELSE Ok(S, <<>>)
    IN IF r.k # "ok" THEN r
       ELSE LET S2 == SkipWs(d, r.s)
                w  == S2.p - r.s.p
            IN Ok([S2 EXCEPT !.ind = IF l + 1 > Len(@) THEN Append(@, w) ELSE [@ EXCEPT ![l + 1] = w]],
                  <<>>)
IndDeeper(d, S, l) ==
    LET r == IndDefine(d, S, l)
    IN IF r.k = "ok" /\ r.s.ind[l + 1] = 0 THEN Mis(Bwd(r.s)) ELSE r
\* the first line of a block string defines the indentation
IndBlock(d, S, l, first, size) ==
    IF l = 0 \/ ~first THEN Ind(d, S, l)
    ELSE LET r == Ind(d, S, l - 1)
         IN IF r.k # "ok" THEN r
            ELSE LET i == SkipIn(d, r.s.p, {" "})
                     w == IF size > 0 THEN size ELSE i - r.s.p
                     S2 == To(r.s, r.s.p + w)
                 IN IF w = 0 \/ i - r.s.p < w THEN Mis(Bwd(r.s))
                    ELSE IF Eof(d, S2) \/ Here(d, S2) \in NLs THEN Mis(Bwd(S2))
                    ELSE Ok([S2 EXCEPT !.ind = Append(SubSeq(S2.ind, 1, l), w)], <<>>)

------------------------------------------------------------------------------
(* Blanks, comments and line breaks between two contents. *)
SkipComment(d, S) == LET i == SkipIn(d, S.p, Blank)
                     IN IF At(d, i) = "#" THEN To(S, SkipOut(d, i, NLs)) ELSE S

RECURSIVE GapLoop(_, _, _, _)
GapLoop(d, S, cmt, t) ==   \* S is after the line break number t
    LET S1 == Ws(d, S)
        S2 == IF cmt THEN SkipComment(d, S1) ELSE S1
        r  == Nl(d, S2)
    IN IF r.k = "ok" THEN GapLoop(d, r.s, cmt, t + 1)
       ELSE IF ~cmt \/ ~Eof(d, S2) THEN Ok(S, t) ELSE Ok(S2, t)
Gap(d, S, cmt) ==
    LET S1 == Ws(d, S)
        S2 == IF cmt THEN SkipComment(d, S1) ELSE S1
        r  == Nl(d, S2)
    IN IF r.k = "ok" THEN GapLoop(d, r.s, cmt, 1)
       ELSE IF cmt /\ Eof(d, S2) /\ S.p < S2.p THEN Ok(S2, 1)
       ELSE Mis(S)
\* optional gap
GapOpt(d, S) == Gap(d, S, TRUE).s

------------------------------------------------------------------------------
(* Numbers. *)
NumPrefix(d, S) == Many1(d, Sym(d, S, {"-"}).s, Digit)
NumBound(d, S) ==
    LET S1 == Ws(d, S) IN IF S1.p > S.p /\ Here(d, S1) = "#" THEN Ok(S1, <<>>) ELSE Bound(d, S1)
IntNum(d, S) ==
    LET a == NumPrefix(d, S)
    IN IF a.k # "ok" THEN a
       ELSE LET S1 == a.s
                c  == Here(d, S1)
                C  == IF c = "o" THEN Octal ELSE Hex
                i  == SkipIn(d, S1.p + 1, C)
                S2 == IF Txt(d, S1) = <<"0">> /\ c \in {"o", "x"} /\ i > S1.p + 1
                      THEN To(S1, i) ELSE S1
                b  == NumBound(d, S2)
            IN IF b.k = "ok" THEN Ok(b.s, Txt(d, S2)) ELSE b
RECURSIVE TrimDotZero(_)
TrimDotZero(v) == IF EndsWith(v, <<".", "0">>) THEN TrimDotZero(SubSeq(v, 1, Len(v) - 2)) ELSE v
Float(d, S) ==
    LET a == NumPrefix(d, S)
        b == IF a.k = "ok" THEN Sym(d, a.s, {"."}) ELSE a
    IN IF b.k # "ok" THEN b
       ELSE LET S1 == Many(d, b.s, Digit)
                c  == NumBound(d, S1)
            IN IF c.k = "ok" THEN Ok(c.s, TrimDotZero(Txt(d, S1))) ELSE c
SciFloat(d, S) ==
    LET a == NumPrefix(d, S)
    IN IF a.k # "ok" THEN a
       ELSE LET S1 == IF Here(d, a.s) = "." THEN Many(d, To(a.s, a.s.p + 1), Digit) ELSE a.s
                b  == Sym(d, S1, {"e", "E"})
            IN IF b.k # "ok" THEN b
               ELSE LET S2 == IF Here(d, b.s) \in {"+", "-"} THEN To(b.s, b.s.p + 1) ELSE b.s
                        c  == Many1(d, S2, Digit)
                        f  == IF c.k = "ok" THEN NumBound(d, c.s) ELSE c
                    IN IF f.k = "ok" THEN Ok(f.s, Txt(d, c.s)) ELSE f
\* a number in the block style is not followed by the flow indicators
Number(d, S, flow) ==
    LET f == Float(d, S)
        g == IF f.k = "ok" THEN f ELSE SciFloat(d, f.s)
        h == IF g.k = "ok" THEN g ELSE IntNum(d, g.s)
        c == Here(d, h.s)
        n == At(d, h.s.p + 1)
        end == IF c = ":" /\ n # "" THEN n \in WsNl ELSE c \notin FlowInd
    IN IF h.k # "ok" THEN h
       ELSE IF flow \/ end THEN Ok(h.s, Val(IF g.k = "ok" THEN "float" ELSE "int", h.v))
       ELSE Mis(Bwd(h.s))

------------------------------------------------------------------------------
(* Quoted strings; q is the quote. *)
\* the line ends with the escape sequence of a line break
WrapEnd(t) == /\ EndsWith(t, <<"\\", "n">>)
              /\ LET u == SubSeq(t, 1, Len(t) - 2)
                 IN (Len(u) - Len(TrimEnd(u, {"\\"}))) % 2 = 0
RECURSIVE QuotedLoop(_, _, _, _)
QuotedLoop(d, S0, q, v0) ==
    LET S  == Fwd(S0)
        S1 == Until(d, S, {"\n", "\r", "\\", q})
        v  == v0 \o Txt(d, S1)
        F  == Fwd(S1)
        c  == Here(d, F)
        esc == IF q = "\"" THEN <<"\\", "\"">> ELSE <<"'", "'">>
        w  == Word(d, F, esc)
        g  == Gap(d, F, FALSE)
    IN IF w.k = "ok" THEN QuotedLoop(d, w.s, q, Append(v, q))
       ELSE IF g.k = "ok"
       THEN LET t  == TrimEnd(v, SpTab)
                v2 == IF g.v > 1 THEN t \o Rep("\n", g.v - 1)
                      ELSE IF q = "\"" /\ WrapEnd(t) THEN t ELSE Append(t, " ")
            IN QuotedLoop(d, Ws(d, g.s), q, v2)
       ELSE IF c = "\\"
       THEN LET B == Fwd(To(F, F.p + 1))
                n == Nl(d, B)
            IN IF q # "\"" THEN QuotedLoop(d, B, q, Append(v, "\\"))
               ELSE IF n.k = "ok"
               THEN LET t == Gap(d, n.s, FALSE)
                        m == IF t.k = "ok" THEN t.v ELSE 0
                    IN QuotedLoop(d, Ws(d, t.s), q, v \o Rep("\n", m))
               ELSE IF Here(d, B) = "\\"
               THEN QuotedLoop(d, To(B, B.p + 1), q, v \o <<"\\", "\\">>)
               ELSE QuotedLoop(d, B, q, Append(v, "\\"))
       ELSE IF c = q THEN Ok(To(F, F.p + 1), v)
       ELSE Er(F, "quoted string terminator")
Quoted(d, S, q) ==
    IF Here(d, S) # q THEN Mis(S)
    ELSE LET S1 == To(S, S.p + 1)
             S2 == Ws(d, S1)
         IN Leave(S, QuotedLoop(d, S2, q, Cut(d, S1.p, S2.p)))

(* The escape sequences of the double quoted string. *)
HexRun(v, i, n) == i + n - 1 <= Len(v) /\ \A j \in i..(i + n - 1) : v[j] \in Hex
HexAt(v, i, n) == HexNum(SubSeq(v, i, i + n - 1), 1, 0)
IsSurrogate(n) == n >= 55296 /\ n <= 57343
\* <<character, number of the characters used>>, the character itself if invalid
EscHex(v, i, n, c) ==
    IF ~HexRun(v, i, n) \/ (n = 8 /\ (v[i] # "0" \/ v[i + 1] # "0")) THEN <<c, 0>>
    ELSE LET code == HexAt(v, i, n)
         IN IF n = 4 /\ code >= 55296 /\ code <= 56319
               /\ At(v, i + 4) = "\\" /\ At(v, i + 5) = "u"
            THEN IF ~HexRun(v, i + 6, 4) THEN <<c, 0>>
                 ELSE LET low == HexAt(v, i + 6, 4)
                      IN IF low >= 56320 /\ low <= 57343
                         THEN <<Chr(65536 + (code - 55296) * 1024 + (low - 56320)), 10>>
                         ELSE <<c, 0>>
            ELSE IF IsSurrogate(code) \/ code > 1114111 THEN <<c, 0>>
            ELSE <<Chr(code), n>>
EscTable == ("n" :> "\n") @@ ("r" :> "\r") @@ ("t" :> "\t") @@ ("b" :> "U+0008")
    @@ ("f" :> "\f") @@ ("0" :> "U+0000") @@ ("a" :> "U+0007") @@ ("v" :> "U+000B")
    @@ ("e" :> "U+001B") @@ ("N" :> "U+0085") @@ ("_" :> "U+00A0") @@ ("L" :> "U+2028")
    @@ ("P" :> "U+2029")
EscKeys == DOMAIN EscTable
RECURSIVE EscapeAt(_, _, _)
EscapeAt(v, i, acc) ==
    IF i > Len(v) THEN acc
    ELSE IF v[i] # "\\" THEN EscapeAt(v, i + 1, Append(acc, v[i]))
    ELSE IF i = Len(v) THEN acc
    ELSE LET c == v[i + 1]
             h == CASE c = "x" -> EscHex(v, i + 2, 2, c)
                    [] c = "u" -> EscHex(v, i + 2, 4, c)
                    [] c = "U" -> EscHex(v, i + 2, 8, c)
                    [] OTHER -> <<IF c \in EscKeys THEN EscTable[c] ELSE c, 0>>
         IN EscapeAt(v, i + 2 + h[2], Append(acc, h[1]))
Escape(v) == EscapeAt(v, 1, <<>>)

------------------------------------------------------------------------------
(* Plain strings. *)
LineStart(d, S) == S.p = 1 \/ d[S.p - 1] \in NLs
PlainPatt == {"[", "]", "{", "}", ":", " ", "\t", "\n", "\r"}
PlainStop(d, S) == LET c == Here(d, S)  n == At(d, S.p + 1)
                   IN \/ c = ""
                      \/ c = ":" /\ (n = "" \/ n \in WsNl)
                      \/ c \in SpTab /\ n = "#"
RECURSIVE PlainLoop(_, _, _, _, _)
PlainLoop(d, S0, l, inner, v0) ==
    LET S  == Fwd(S0)
        S1 == Until(d, S, IF inner THEN PlainPatt \cup {","} ELSE PlainPatt)
        v  == v0 \o Txt(d, S1)
        F  == Fwd(S1)
        c  == Here(d, F)
    IN IF PlainStop(d, F) THEN Ok(F, v)
       ELSE IF c \in {":", " ", "\t"} \/ (~inner /\ v # <<>> /\ c \in {"{", "}", "[", "]"})
       THEN PlainLoop(d, To(F, F.p + 1), l, inner, Append(v, c))
       ELSE IF v = <<>> THEN Ok(F, v)
       ELSE LET G == Ind(d, F, l).s      \* only the stack is changed
                g == Gap(d, G, TRUE)
            IN IF g.k # "ok" THEN Ok(g.s, v)
               ELSE LET t  == TrimEnd(v, SpTab)
                        v2 == IF g.v = 1 THEN Append(t, " ") ELSE t \o Rep("\n", g.v - 1)
                        i  == Ind(d, g.s, l)
                    IN IF i.k # "ok" THEN Ok(i.s, v2)
                       ELSE PlainLoop(d, Ws(d, i.s), l, inner, v2)
Plain(d, S, l, inner) ==
    LET c == Here(d, S)  n == At(d, S.p + 1)
    IN IF c \in {"#", "|", ">", " ", "\t"} \/ (c \in {"-", "?"} /\ (n = "" \/ n \in WsNl))
       THEN Mis(S)
       ELSE IF LineStart(d, S) /\ (DocMark(d, S, Start).k = "ok" \/ DocMark(d, S, End).k = "ok")
       THEN Mis(Bwd(S))
       ELSE LET r == Leave(S, PlainLoop(d, S, l, inner, <<>>))
                v == TrimEnd(r.v, {" ", "\t", "\n"})
            IN IF v = <<>> THEN Mis(r.s) ELSE Ok(r.s, v)

------------------------------------------------------------------------------
(* Block strings. *)
RECURSIVE BlockLoop(_, _, _, _, _, _, _)
BlockLoop(d, S, l, fold, size, first, v) ==
    IF Eof(d, S) THEN Ok(S, IF first THEN v ELSE Append(v, "\n"))
    ELSE LET n == Nl(d, S)
         IN IF n.k # "ok" THEN n
            ELSE LET F  == Fwd(n.s)
                     i  == IndBlock(d, F, l, first, size)
                     g  == Gap(d, i.s, FALSE)
                     v1 == IF i.k # "ok" /\ g.k = "ok" THEN v \o Rep("\n", g.v) ELSE v
                     j  == IF i.k = "ok" THEN i ELSE IF g.k # "ok" THEN g
                           ELSE IndBlock(d, g.s, l, first, size)
                 IN IF j.k # "ok"
                    THEN Ok(To(j.s, j.s.p - 1), IF first THEN v1 ELSE Append(v1, "\n"))
                    ELSE LET L  == Fwd(j.s)
                             S2 == Until(d, L, NLs)
                             s  == IF fold THEN TrimStart(Txt(d, S2), SpTab) ELSE Txt(d, S2)
                             v2 == IF ~fold THEN (IF first THEN v1 \o s ELSE Append(v1, "\n") \o s)
                                   ELSE IF s = <<>> THEN Append(v1, "\n")
                                   ELSE IF v1 # <<>> /\ v1[Len(v1)] # "\n" THEN Append(v1, " ") \o s
                                   ELSE v1 \o s
                         IN BlockLoop(d, S2, l, fold, size, FALSE, v2)
Chomp(c, v) == CASE c = "-" -> TrimEnd(v, {"\n"})
                 [] c = "+" -> v
                 [] OTHER -> LET t == TrimEnd(v, {"\n"}) IN IF t = <<>> THEN <<>> ELSE Append(t, "\n")
NumSize(c) == IF c \in Digit \ {"0"} THEN HexTable[c] ELSE 0
BlockStr(d, S, l, fold) ==
    LET h == Sym(d, S, IF fold THEN {">"} ELSE {"|"})
    IN IF h.k # "ok" THEN h
       ELSE LET S1 == h.s
                n1 == NumSize(Here(d, S1))
                S2 == IF n1 > 0 THEN To(S1, S1.p + 1) ELSE S1
                c  == IF Here(d, S2) \in {"-", "+"} THEN Here(d, S2) ELSE ""
                S3 == IF c # "" THEN To(S2, S2.p + 1) ELSE S2
                n2 == IF n1 = 0 THEN NumSize(Here(d, S3)) ELSE 0
                S4 == IF n2 > 0 THEN To(S3, S3.p + 1) ELSE S3
                S5 == Ws(d, S4)
                S6 == IF S5.p > S4.p THEN SkipComment(d, S5) ELSE S5
                r  == Leave(S6, BlockLoop(d, S6, l, fold, Max(n1, n2), TRUE, <<>>))
            IN IF r.k = "ok" THEN Ok(r.s, Chomp(c, r.v)) ELSE r

------------------------------------------------------------------------------
(* Node properties. *)
IdentEnd(d, i) == IF At(d, i) \in Alnum THEN SkipIn(d, i + 1, Ident) ELSE i
Name(d, S, c) ==        \* anchor (c = "&") and alias (c = "*")
    LET j == IdentEnd(d, S.p + 1)
    IN IF Here(d, S) # c \/ j = S.p + 1 THEN Mis(Bwd(S))
       ELSE Ok(To(S, j), Cut(d, S.p + 1, j))
Tag(d, S) ==
    IF Here(d, S) # "!" THEN Mis(Bwd(S))
    ELSE LET b == S.p + 1
             j == IdentEnd(d, b)
             h == Cut(d, b, j)
             full(S1, pre) == LET k == IdentEnd(d, S1.p)
                              IN Ok(To(S1, k), pre \o Cut(d, S1.p, k))
         IN IF h # <<>> /\ At(d, j) = "!"
            THEN IF h \in DOMAIN S.tags THEN full(To(S, j + 1), S.tags[h])
                 ELSE Er(To(S, j + 1), "undefined tag handle")
            ELSE IF h # <<>> THEN full(To(S, b), S.tags[Bang])
            ELSE IF At(d, b) = "<"
            THEN LET k == SkipOut(d, b + 1, {" ", "<", ">", "\n", "\r"})
                 IN IF k = b + 1 THEN Er(To(S, b + 1), "full tag terminator")
                    ELSE IF At(d, k) = ">" THEN Ok(To(S, k + 1), Cut(d, b + 1, k))
                    ELSE Er(To(S, b), "full tag terminator")
            ELSE IF At(d, b) = "!" THEN full(To(S, b + 1), S.tags[BangBang])
            ELSE full(To(S, b), S.tags[Bang])

(* Directives. *)
IsVersion(d, S) == \/ DocMark(d, S, <<"1", ".", "1">>).k = "ok"
                   \/ DocMark(d, S, <<"1", ".", "2">>).k = "ok"
DirYaml(d, S) ==
    LET w == Ws(d, S)
    IN IF w.p = S.p THEN Mis(S)
       ELSE IF S.ver THEN Er(w, "checked version")
       ELSE IF ~IsVersion(d, w) THEN Er(w, "invalid version")
       ELSE Ok([To(w, w.p + 3) EXCEPT !.ver = TRUE], <<>>)
DirTag(d, S) ==
    LET w == Ws(d, S)
    IN IF w.p = S.p \/ Here(d, w) # "!" THEN Mis(S)
       ELSE LET b == w.p + 1
                j == IdentEnd(d, b)
                h == IF j > b THEN (IF At(d, j) = "!" THEN <<Cut(d, b, j), j + 1>> ELSE <<<<>>, 0>>)
                     ELSE IF At(d, b) = "!" THEN <<BangBang, b + 1>> ELSE <<Bang, b>>
                k == SkipIn(d, h[2], Blank)
                m == SkipOut(d, k, {" ", "\n", "\r"})
            IN IF h[2] = 0 \/ k = h[2] \/ m = k THEN Mis(S)
               ELSE Ok([To(w, m) EXCEPT !.tags = (h[1] :> Cut(d, k, m)) @@ @], <<>>)
Directive(d, S) ==
    IF Here(d, S) # "%" THEN Mis(Bwd(S))
    ELSE LET S1 == To(S, S.p + 1)
             y  == Word(d, S1, <<"Y", "A", "M", "L">>)
             t  == Word(d, S1, <<"T", "A", "G">>)
             r  == IF y.k = "ok" THEN DirYaml(d, y.s)
                   ELSE IF t.k = "ok" THEN DirTag(d, t.s) ELSE Mis(S1)
         IN IF r.k = "err" THEN r ELSE Gap(d, Until(d, r.s, NLs), TRUE)
=============================================================================
