-------------------------------- MODULE Writer ------------------------------
(***************************************************************************)
(* The text that the writer makes of a node.                               *)
(***************************************************************************)
EXTENDS Loader, FiniteSets

Sps(k) == Rep(" ", k)
UniWs == {" ", "\t", "\n", "\r", "\f", "U+000B", "U+0085", "U+00A0", "U+1680", "U+2028", "U+2029", "U+202F", "U+205F", "U+3000",
          "U+2000", "U+2001", "U+2002", "U+2003", "U+2004", "U+2005", "U+2006", "U+2007", "U+2008", "U+2009", "U+200A"}
RECURSIVE SplitLines(_, _, _)
SplitLines(s, i, cur) == IF i > Len(s) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                         ELSE IF s[i] = "\n" THEN <<cur>> \o SplitLines(s, i + 1, <<>>)
                         ELSE SplitLines(s, i + 1, Append(cur, s[i]))
Lines(s) == SplitLines(s, 1, <<>>)
Has(s, C) == \E i \in 1..Len(s) : s[i] \in C

\* the string is kept by a literal string
IsLiteral(s) == /\ s[1] \notin {" ", "\n"} /\ ~EndsWith(s, <<"\n", "\n">>) /\ ~Has(s, {"\r"})
                /\ LET ls == Lines(s)
                   IN \A i \in 1..Len(ls) : ls[i] = <<>> \/ \E j \in 1..Len(ls[i]) : ls[i][j] \notin UniWs
\* the string is read back from a plain string, as a root, a key and a value
IsPlain(s) ==
    /\ s # <<>> /\ s[1] # "%" /\ ~Has(s, NLs)
    /\ LET r == Load(s, FALSE)
       IN r.ok /\ Len(r.docs) = 1 /\ r.docs[1].t = "str" /\ r.docs[1].v = s
    /\ LET r == Load(s \o <<":", " ">> \o s, FALSE)
       IN r.ok /\ Len(r.docs) = 1 /\ LET x == r.docs[1]
          IN x.t = "map" /\ Len(x.v) = 1 /\ x.v[1][1].t = "str" /\ x.v[1][2].t = "str" /\ x.v[1][1].v = s /\ x.v[1][2].v = s
\* the other control characters
Hex2(n) == <<"\\", "x", HexDigits[(n \div 16) + 1], HexDigits[(n % 16) + 1]>>
Code2(n) == IF n = 12 THEN "\f" ELSE "U+00" \o HexDigits[(n \div 16) + 1] \o HexDigits[(n % 16) + 1]
Codes == {0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12} \cup 14..31 \cup 127..159
Controls == {Code2(n) : n \in Codes}
Control == [c \in Controls |-> Hex2(CHOOSE n \in Codes : Code2(n) = c)]
Quote(s) == <<"\"">> \o Flat([i \in 1..Len(s) |->
    CASE s[i] = "\"" -> <<"\\", "\"">> [] s[i] = "\\" -> <<"\\", "\\">> [] s[i] = "\n" -> <<"\\", "n">>
      [] s[i] = "\r" -> <<"\\", "r">> [] s[i] = "\t" -> <<"\\", "t">> [] s[i] \in Controls -> Control[s[i]]
      [] OTHER -> <<s[i]>>]) \o <<"\"">>

TagText(g) == IF StartsWith(g, CorePrefix) /\ IdentEnd(g, Len(CorePrefix) + 1) > Len(g) /\ Len(g) > Len(CorePrefix)
              THEN <<"!", "!">> \o SubSeq(g, Len(CorePrefix) + 1, Len(g)) \o <<" ">>
              ELSE IF IdentEnd(g, 1) > Len(g) THEN <<"!">> \o g \o <<" ">> ELSE <<"!", "<">> \o g \o <<">", " ">>
\* a decimal number beyond the range of the floats
Huge(s) == FloatKey(s)[1] \in {<<"i","n","f">>, <<"-","i","n","f">>}
FloatText(s) ==
    CASE s = <<"N","a","N">> -> <<".","n","a","n">>
      [] s = <<"i","n","f">> -> <<".","i","n","f">>
      [] s = <<"-","i","n","f">> -> <<"-",".","i","n","f">>
      [] Huge(s) -> (IF s[1] = "-" THEN <<"-">> ELSE <<>>) \o <<".","i","n","f">>
      [] ~Has(s, {".", "e", "E"}) -> s \o <<".", "0">>
      [] OTHER -> s

TrimLast(t) == SubSeq(t, 1, Len(t) - 1)
RECURSIVE Write(_, _, _, _), Items(_, _, _), PairsOf(_, _, _, _, _)
Write(x, root, level, key) ==
    LET p == (IF x.a = <<>> THEN <<>> ELSE <<"&">> \o x.a \o <<" ">>)
             \o (IF x.tag = <<>> \/ x.tag = DefaultTag(x.t) THEN <<>> ELSE TagText(x.tag))
    IN p \o
    CASE x.t = "null" -> <<"n","u","l","l">>
      [] x.t \in {"bool", "int"} -> x.v
      [] x.t = "float" -> FloatText(x.v)
      [] x.t = "alias" -> <<"*">> \o x.v
      [] x.t = "str" ->
           (LET ls == Lines(x.v)
            IN IF Len(ls) > 1 /\ ~key /\ IsLiteral(x.v)
               THEN <<"|">> \o (IF x.v[Len(x.v)] = "\n" THEN <<>> ELSE <<"-">>)
                    \o Flat([i \in 1..Len(ls) |-> <<"\n">> \o (IF ls[i] = <<>> THEN <<>> ELSE Sps(2 * Max(level, 1)) \o ls[i])])
               ELSE IF IsPlain(x.v) THEN x.v ELSE Quote(x.v))
      [] x.v = <<>> -> (IF x.t = "seq" THEN <<"[", "]">> ELSE <<"{", "}">>)
      [] x.t = "seq" -> TrimLast(<<"\n">> \o Items(x.v, level, 1))
      [] OTHER -> LET wrap == root = "map" \/ p # <<>>
                  IN TrimLast((IF wrap THEN <<"\n">> ELSE <<>>) \o PairsOf(x.v, wrap, root, level, 1))
Items(v, level, i) == IF i > Len(v) THEN <<>>
                      ELSE Sps(2 * level) \o <<"-", " ">> \o Write(v[i], "seq", level + 1, FALSE) \o <<"\n">> \o Items(v, level, i + 1)
PairsOf(v, wrap, root, level, i) ==
    IF i > Len(v) THEN <<>>
    ELSE LET k == Write(v[i][1], "map", level + 1, TRUE)
             y == v[i][2]
             w == Write(y, "map", IF y.t = "seq" /\ root = "seq" /\ i = 1 THEN level ELSE level + 1, FALSE)
         IN (IF i > 1 \/ wrap THEN Sps(2 * level) ELSE <<>>)
            \o (IF Has(k, {"\n"}) \/ k[1] \in {"&", "!"}
                THEN <<"?">> \o (IF k[1] = "\n" THEN <<>> ELSE <<" ">>) \o k \o <<"\n">> \o Sps(2 * level)
                ELSE k)
            \o <<":">> \o (IF w[1] = "\n" THEN <<>> ELSE <<" ">>) \o w \o <<"\n">> \o PairsOf(v, wrap, root, level, i + 1)
\* the documents, there are no equal keys
RECURSIVE WriteFrom(_, _)
WriteFrom(roots, i) ==
    IF i > Len(roots) THEN <<>>
    ELSE LET t == Write(roots[i], "", 0, FALSE) \o <<"\n">>
         IN (IF i = 1 THEN t ELSE <<"-", "-", "-", "\n">> \o (IF t[1] = "\n" THEN Tail(t) ELSE t)) \o WriteFrom(roots, i + 1)
Written(roots) == WriteFrom(roots, 1)

------------------------------------------------------------------------------
(* The documents are read back from the text. *)
\* the anchored nodes that are a part of the document (a repeated key is not)
RECURSIVE Anchored(_)
Anchored(x) == (IF x.a = <<>> THEN {} ELSE {<<x.a, DataOf(x)>>}) \cup
    CASE x.t = "seq" -> UNION {Anchored(x.v[i]) : i \in 1..Len(x.v)}
      [] x.t = "map" -> UNION {Anchored(x.v[i][1]) \cup Anchored(x.v[i][2]) : i \in 1..Len(x.v)}
      [] OTHER -> {}
\* the numbers are the same by value
RECURSIVE SameTags(_, _)
SameTags(r, x) == /\ OwnTag(r) = OwnTag(x)
                  /\ r.t = "seq" => \A i \in 1..Len(r.v) : SameTags(r.v[i], x.v[i])
                  /\ r.t = "map" => \A i \in 1..Len(r.v) : SameTags(r.v[i][1], x.v[i][1]) /\ SameTags(r.v[i][2], x.v[i][2])
SameDoc(r, x, tags) == Same(r, x) /\ (tags => SameTags(r, x))
ReadBack(r, roots, tags, anchors) ==
    /\ r.ok /\ Len(r.docs) = Len(roots)
    /\ \A i \in 1..Len(roots) :
          /\ SameDoc(r.docs[i], roots[i], tags)
          /\ anchors => /\ Len(r.anc[i]) = Cardinality(Anchored(roots[i]))
                        /\ \A k \in 1..Len(r.anc[i]) : \E x \in Anchored(roots[i]) :
                              x[1] = r.anc[i][k][1] /\ SameDoc(r.anc[i][k][2], x[2], TRUE)
=============================================================================
