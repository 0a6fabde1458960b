------------------------------- MODULE Present ------------------------------
(***************************************************************************)
(* The presentations of data.  Render writes the documents of Events in    *)
(* the style of each node, and the Reader has to return exactly the data,  *)
(* for every layout of the white space, the comments and the line breaks.  *)
(* A style of conf.styles has                                              *)
(*   q  plain | single | double | literal | folded (double is the fallback)*)
(*   fold  break the lines of the string, esc  use escape sequences        *)
(*   w  indentation width, 0 for the column of the parent (sequences)      *)
(*   flow  flow collection, nl  the content starts on the next line        *)
(*   cx  complex key, nul  text of null, ind  indentation indicator        *)
(*   num  a tag that is written as a verbatim tag                          *)
(* A layout of conf.layouts is a sequence of numbers, used in turn for the *)
(* breaks of the structure; conf.br are the line breaks.                   *)
(***************************************************************************)
EXTENDS Events

VARIABLES lay, br
pvars == <<vars, lay, br>>
Layouts == 1..Len(Conf.layouts)
PInit == Init /\ lay = <<1>> /\ br = 1
\* the layout is chosen with the end of a document
Relay == IF Conf.all THEN lay' \in {Conf.layouts[i] : i \in Layouts}
         ELSE lay' \in {<<RandomElement(1..9), RandomElement(1..9), RandomElement(1..9), RandomElement(1..9),
                          RandomElement(1..9), RandomElement(1..9), RandomElement(1..9)>>}
PNext == Next /\ IF stack' = <<>> THEN Relay /\ br' \in Pick(1..Len(Conf.br)) ELSE UNCHANGED <<lay, br>>

\* marks in the rendered text
NL == "<nl>"      \* a line break, where comments and blank lines are possible
NB == "<nb>"      \* a line break after a block scalar
SP == "<sp>"      \* white space or nothing in a flow collection
S1 == "<s1>"      \* white space in a flow collection

St(x) == Conf.styles[x.st]
Sps(k) == Rep(" ", k)
IsColl(x) == x.t \in {"seq", "map"} /\ x.v # <<>>

------------------------------------------------------------------------------
(* Scalars. *)
Special == {"\n", "\r", "\t", "\f", "U+0000", "U+0007", "U+001B", "U+0085", "U+2028", "U+FEFF"}
Printable(s) == \A i \in 1..Len(s) : s[i] \notin Special
SafePlain == Alnum \cup {" ", "-", ".", "/", "_", ":", "#", "+", "U+00E9", "U+4E16", "U+1F600", "'", "\"", "\\", "!", "&", "*"}
PlainOk(s, flow) ==
    /\ s # <<>> /\ s[1] \in Lower \cup Upper \cup {"U+00E9", "U+4E16", "_", "/"} /\ s[Len(s)] \notin {" ", ":"}
    /\ \A i \in 1..Len(s) : s[i] \in SafePlain \/ (~flow /\ s[i] \in {"[", "]", "{", "}", ","})
    /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = ":" /\ s[i + 1] \in {" ", "[", "{", "]", "}", ","}) /\ ~(s[i] = " " /\ s[i + 1] = "#")
    /\ Resolve(s).t = "str"
SingleOk(s) == Printable(s)

\* a string that can be folded: the blanks are single and inside
LineSet == {" ", "\n"}
Foldable(s) == /\ s # <<>> /\ s[1] \notin LineSet /\ s[Len(s)] \notin LineSet
               /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = " " /\ s[i + 1] \in LineSet) /\ ~(s[i] = "\n" /\ s[i + 1] = " ")
               /\ \A i \in 1..Len(s) : s[i] \notin Special \ {"\n"}
\* break the lines: a blank is a break, a line break is an empty line more
RECURSIVE Broken(_, _, _)
Broken(s, i, c) == IF i > Len(s) THEN <<>>
                   ELSE IF s[i] = " " THEN <<"\n">> \o Sps(c) \o Broken(s, i + 1, c)
                   ELSE IF s[i] = "\n"
                   THEN LET j == SkipIn(s, i, {"\n"})
                        IN Rep("\n", j - i + 1) \o Sps(c) \o Broken(s, j, c)
                   ELSE <<s[i]>> \o Broken(s, i + 1, c)
\* a continuation line does not look like something else
FoldPlainOk(s, flow) == /\ Foldable(s)
                        /\ PlainOk([i \in 1..Len(s) |-> IF s[i] = "\n" THEN "_" ELSE s[i]], flow)
                        /\ \A i \in 2..Len(s) : s[i - 1] \in LineSet => s[i] \in Alnum

Doubled(s) == Flat([i \in 1..Len(s) |-> IF s[i] = "'" THEN <<"'", "'">> ELSE <<s[i]>>])
NameOf == [c \in {"\n", "\r", "\t", "\f", "U+0000", "U+0007", "U+001B", "U+0085", "U+2028", "U+FEFF", "\"", "\\", "U+00E9", "U+4E16", "U+1F600", "a", "/"} |->
    CASE c = "\n" -> << <<"\\", "n">>, <<"\\", "x", "0", "a">> >>
      [] c = "\r" -> << <<"\\", "r">>, <<"\\", "u", "0", "0", "0", "D">> >>
      [] c = "\t" -> << <<"\\", "t">>, <<"\\", "x", "0", "9">> >>
      [] c = "\f" -> << <<"\\", "f">>, <<"\\", "x", "0", "C">> >>
      [] c = "U+0000" -> << <<"\\", "0">>, <<"\\", "x", "0", "0">> >>
      [] c = "U+0007" -> << <<"\\", "a">>, <<"\\", "u", "0", "0", "0", "7">> >>
      [] c = "U+001B" -> << <<"\\", "e">>, <<"\\", "x", "1", "b">> >>
      [] c = "U+0085" -> << <<"\\", "N">>, <<"\\", "x", "8", "5">> >>
      [] c = "U+2028" -> << <<"\\", "L">>, <<"\\", "u", "2", "0", "2", "8">> >>
      [] c = "U+FEFF" -> << <<"\\", "u", "f", "e", "f", "F">>, <<"\\", "U", "0", "0", "0", "0", "F", "E", "F", "F">> >>
      [] c = "\"" -> << <<"\\", "\"">>, <<"\\", "x", "2", "2">> >>
      [] c = "\\" -> << <<"\\", "\\">>, <<"\\", "x", "5", "C">> >>
      [] c = "U+00E9" -> << <<"U+00E9">>, <<"\\", "x", "e", "9">> >>
      [] c = "U+4E16" -> << <<"U+4E16">>, <<"\\", "u", "4", "e", "1", "6">> >>
      [] c = "U+1F600" -> << <<"U+1F600">>, <<"\\", "u", "D", "8", "3", "d", "\\", "u", "d", "E", "0", "0">> >>
      [] c = "a" -> << <<"a">>, <<"\\", "U", "0", "0", "0", "0", "0", "0", "6", "1">> >>
      [] OTHER -> << <<c>>, <<"\\", c>> >>]
Escaped(s, m) == Flat([i \in 1..Len(s) |-> IF s[i] \in DOMAIN NameOf THEN NameOf[s[i]][m] ELSE <<s[i]>>])
\* break the lines inside of a double quoted string by escaped line breaks
RECURSIVE Wrapped(_, _)
Wrapped(ps, c) == IF Len(ps) <= 1 THEN Flat(ps)
                  ELSE ps[1] \o (IF ps[2][1] # " " THEN <<"\\", "\n">> \o Sps(c) ELSE <<>>) \o Wrapped(Tail(ps), c)

RECURSIVE SplitLines(_, _, _)
SplitLines(s, i, cur) == IF i > Len(s) THEN <<cur>>
                         ELSE IF s[i] = "\n" THEN <<cur>> \o SplitLines(s, i + 1, <<>>)
                         ELSE SplitLines(s, i + 1, Append(cur, s[i]))
\* the last line of the content has a character, no line is only blanks
BlockOk(s) == /\ \E i \in 1..Len(s) : s[i] \notin LineSet
              /\ \A i \in 1..Len(s) : s[i] \notin {"\r", "\f", "\t", "U+0085", "U+2028", "U+FEFF"}
              /\ LET ls == SplitLines(s, 1, <<>>)
                 IN \A i \in 1..Len(ls) : ls[i] = <<>> \/ \E j \in 1..Len(ls[i]) : ls[i][j] # " "
EndBreaks(s) == Len(s) - Len(TrimEnd(s, {"\n"}))
Chomping(s) == LET e == EndBreaks(s) IN IF e = 0 THEN <<"-">> ELSE IF e = 1 THEN <<>> ELSE <<"+">>
RECURSIVE BlockLines(_, _)
BlockLines(ls, c) == IF ls = <<>> THEN <<>>
                     ELSE <<"\n">> \o (IF ls[1] = <<>> THEN <<>> ELSE Sps(c) \o ls[1]) \o BlockLines(Tail(ls), c)
\* c is the column of the content, p the column of the parent
Literal(s, c, p, ind) ==
    LET core == TrimEnd(s, {"\n"})
        size == c - p
        need == s[1] \in {" ", "\n"} \/ ind
    IN <<"|">> \o (IF need THEN <<HexDigits[size + 1]>> ELSE <<>>) \o Chomping(s)
       \o BlockLines(SplitLines(core, 1, <<>>), c) \o Rep("\n", EndBreaks(s) - 1)
FoldOk(s) == /\ BlockOk(s) /\ s[1] # "\n"
             /\ Foldable(TrimEnd(s, {"\n"}))
\* a line break of the content is an empty line
RECURSIVE FoldLines(_, _, _, _)
FoldLines(s, i, c, brk) ==
    IF i > Len(s) THEN <<>>
    ELSE IF s[i] = " " /\ brk THEN <<"\n">> \o Sps(c) \o FoldLines(s, i + 1, c, brk)
    ELSE IF s[i] = "\n" THEN LET j == SkipIn(s, i, {"\n"})
                             IN Rep("\n", j - i + 1) \o Sps(c) \o FoldLines(s, j, c, brk)
    ELSE <<s[i]>> \o FoldLines(s, i + 1, c, brk)
Folded(s, c, p, brk) ==
    LET core == TrimEnd(s, {"\n"})
    IN <<">">> \o Chomping(s) \o <<"\n">> \o Sps(c) \o FoldLines(core, 1, c, brk) \o Rep("\n", EndBreaks(s) - 1)

NullText(k) == CASE k = 1 -> <<"n","u","l","l">> [] k = 2 -> <<"~">> [] OTHER -> <<>>
Chosen(x) == LET s == St(x) IN IF "q" \in DOMAIN s THEN s.q ELSE "double"

\* a scalar on one line
OneLine(x, flow) ==
    LET s == St(x)
    IN CASE x.t = "null" -> NullText(IF flow /\ s.nul = 3 THEN 2 ELSE s.nul)
         [] x.t = "alias" -> <<"*">> \o x.v
         [] x.t = "seq" -> <<"[", SP, "]">>
         [] x.t = "map" -> <<"{", SP, "}">>
         [] x.t # "str" -> x.v
         [] s.q = "plain" /\ PlainOk(x.v, flow) -> x.v
         [] s.q = "single" /\ SingleOk(x.v) -> <<"'">> \o Doubled(x.v) \o <<"'">>
         [] OTHER -> <<"\"">> \o Escaped(x.v, s.esc) \o <<"\"">>
\* a scalar on any number of lines, cc is the column of its continuation
Lined(x, cc, flow) ==
    LET s == St(x)
    IN IF x.t # "str" \/ ~s.fold THEN OneLine(x, flow)
       ELSE CASE s.q = "plain" /\ FoldPlainOk(x.v, flow) /\ ~flow -> Broken(x.v, 1, cc)
              [] s.q = "single" /\ Foldable(x.v) -> <<"'">> \o Broken(Doubled(x.v), 1, cc) \o <<"'">>
              [] s.q = "double" /\ s.esc = 1 /\ Foldable(x.v) ->
                    <<"\"">> \o Broken(Flat([i \in 1..Len(x.v) |-> IF x.v[i] \in {"\"", "\\"} THEN <<"\\", x.v[i]>> ELSE <<x.v[i]>>]), 1, cc) \o <<"\"">>
              [] s.q = "double" /\ s.esc = 2 ->
                    <<"\"">> \o Wrapped([i \in 1..Len(x.v) |-> Escaped(<<x.v[i]>>, 2)], cc) \o <<"\"">>
              [] OTHER -> OneLine(x, flow)
IsBlock(x) == x.t = "str" /\ ((St(x).q = "literal" /\ BlockOk(x.v)) \/ (St(x).q = "folded" /\ FoldOk(x.v)))

\* the tag and the anchor, each one followed by a blank
TagText(g, st) == IF g = <<>> THEN <<>>
                  ELSE IF StartsWith(g, CorePrefix) /\ ~st.num THEN <<"!", "!">> \o SubSeq(g, Len(CorePrefix) + 1, Len(g)) \o <<" ">>
                  ELSE IF ~st.num /\ \A i \in 1..Len(g) : g[i] \in Ident THEN <<"!">> \o g \o <<" ">>
                  ELSE <<"!", "<">> \o g \o <<">", " ">>
Props(x) == LET a == IF x.a = <<>> THEN <<>> ELSE <<"&">> \o x.a \o <<" ">>
                g == TagText(x.tag, St(x))
            IN IF St(x).nl THEN g \o a ELSE a \o g
\* nothing remains at the end of the line
Cut0(v) == TrimEnd(v, {" "})

------------------------------------------------------------------------------
(* Flow collections. *)
RECURSIVE Flow(_, _)
FlowKey(x, f) == IF x.t \in {"seq", "map", "alias"} \/ x.a # <<>> \/ x.tag # <<>> THEN f \o <<" ">> ELSE f
Flow(x, cc) ==
    Props(x) \o
    (IF x.t = "seq" /\ x.v # <<>>
     THEN <<"[", SP>> \o Flat([i \in 1..Len(x.v) |-> Flow(x.v[i], cc) \o (IF i < Len(x.v) THEN <<SP, ",", SP>> ELSE IF St(x).nl THEN <<SP, ",", SP>> ELSE <<SP>>)]) \o <<"]">>
     ELSE IF x.t = "map" /\ x.v # <<>>
     THEN <<"{", SP>> \o Flat([i \in 1..Len(x.v) |-> FlowKey(x.v[i][1], Flow(x.v[i][1], cc)) \o <<":", S1>> \o Flow(x.v[i][2], cc)
                               \o (IF i < Len(x.v) THEN <<SP, ",", SP>> ELSE IF St(x).nl THEN <<SP, ",", SP>> ELSE <<SP>>)]) \o <<"}">>
     ELSE OneLine(x, TRUE))

------------------------------------------------------------------------------
(* Block collections: the text after the indicator of the parent at the    *)
(* column c, with the break of the last line.                              *)
RECURSIVE SeqLines(_, _, _), MapLines(_, _, _), After(_, _, _)
EndOf(x, f) == f \o <<IF IsBlock(x) THEN NB ELSE NL>>
\* a scalar, an alias or a flow collection after "-", ":", "?" or on the root
Simple(x, c, w) ==
    LET p == Props(x)
    IN IF IsColl(x) THEN <<" ">> \o Flow(x, c + 10)
       ELSE IF IsBlock(x)
       THEN <<" ">> \o p \o (IF St(x).q = "literal" THEN Literal(x.v, c + Max(w, 1), c, St(x).ind)
                             ELSE Folded(x.v, c + Max(w, 1), c, St(x).fold))
       ELSE LET t == Lined(x, c + 10, FALSE)
            IN IF p = <<>> /\ t = <<>> THEN <<>> ELSE Cut0(<<" ">> \o p \o t)
SeqLines(v, c, i) ==
    IF i > Len(v) THEN <<>>
    ELSE (IF i > 1 THEN Sps(c) ELSE <<>>) \o <<"-">>
         \o (LET x == v[i]
             IN IF IsColl(x) /\ ~St(x).flow
                THEN IF Props(x) # <<>> \/ St(x).nl
                     THEN (IF Props(x) = <<>> THEN <<>> ELSE Cut0(<<" ">> \o Props(x))) \o <<NL>> \o Sps(c + 2) \o After(x, c + 2, 1)
                     ELSE <<" ">> \o After(x, c + 2, 1)
                ELSE EndOf(x, Simple(x, c, St(x).w)))
         \o SeqLines(v, c, i + 1)
\* the lines of the block collection at the column c, the first is indented
After(x, c, i) == IF x.t = "seq" THEN SeqLines(x.v, c, i) ELSE MapLines(x.v, c, i)
\* the value (or the complex key) of a pair
Value(x, c, key) ==
    LET w == IF key \/ x.t = "map" THEN Max(St(x).w, 1) ELSE St(x).w
        p == Props(x)
    IN IF IsColl(x) /\ ~St(x).flow
       THEN (IF p = <<>> THEN <<>> ELSE Cut0(<<" ">> \o p)) \o <<NL>> \o Sps(c + w) \o After(x, c + w, 1)
       ELSE IF St(x).nl /\ p = <<>> /\ ~IsBlock(x) /\ x.t # "null"
       THEN <<NL>> \o Sps(c + Max(w, 1)) \o (IF IsColl(x) THEN Flow(x, c + 10) ELSE OneLine(x, FALSE)) \o <<NL>>
       ELSE EndOf(x, Simple(x, c, St(x).w))
SimpleKey(x) == ~St(x).cx /\ Props(x) = <<>> /\ ~IsColl(x) /\ ~(x.t = "null" /\ St(x).nul = 3)
MapLines(v, c, i) ==
    IF i > Len(v) THEN <<>>
    ELSE LET k == v[i][1]
         IN (IF i > 1 THEN Sps(c) ELSE <<>>)
            \o (IF SimpleKey(k)
                THEN OneLine(k, FALSE) \o (IF k.t = "alias" THEN <<" ">> ELSE <<>>)
                ELSE IF k.t = "null" /\ Props(k) = <<>> /\ St(k).nul = 3 THEN <<"~">>
                ELSE <<"?">> \o Value(k, c, TRUE) \o Sps(c))
            \o <<":">> \o Value(v[i][2], c, FALSE)
            \o MapLines(v, c, i + 1)

Root(x) == LET p == Props(x)
           IN IF IsColl(x) /\ ~St(x).flow THEN (IF p = <<>> THEN <<>> ELSE Cut0(p) \o <<NL>>) \o After(x, 0, 1)
              ELSE IF IsColl(x) THEN Flow(x, 10) \o <<NL>>
              ELSE IF IsBlock(x) THEN Tail(Simple(x, 0, St(x).w)) \o <<NB>>
              ELSE Cut0(p \o OneLine(x, FALSE)) \o <<NL>>
------------------------------------------------------------------------------
(* The stream. *)
Dashes == <<"-", "-", "-", NL>>
Dots   == <<".", ".", ".", NL>>
RECURSIVE Stream(_)
Stream(i) == IF i > Len(docs) THEN <<>>
             ELSE LET k == lay[1 + (i % Len(lay))]
                  IN (IF i > 1 \/ k % 2 = 0 \/ Root(docs[i].root) = <<NL>> THEN Dashes ELSE <<>>) \o Root(docs[i].root)
                     \o (IF k % 3 = 0 THEN Dots ELSE <<>>) \o Stream(i + 1)

HashC == <<" ", "#", " ", "c", ":", " ", "[", "\n">>
MarkText(m, k) ==
    CASE m = NL -> (CASE k = 2 -> HashC [] k = 3 -> <<"\n", "\n">> [] k = 4 -> <<"\n", " ", "#", "-", "\n">>
                      [] k = 5 -> <<" ", "\t", "\n">> [] k = 6 -> <<" ", "#", "\n", "\n", " ", " ", "\n">>
                      [] k = 7 -> <<"\n", " ", " ", " ", " ", "#", " ", "a", ":", " ", "b", "\n">> [] OTHER -> <<"\n">>)
      [] m = NB -> (IF k \in {2, 4} THEN <<"\n", "#", "x", "\n">> ELSE <<"\n">>)
      [] m = SP -> (CASE k = 2 -> <<" ">> [] k = 3 -> <<"\n">> [] k = 4 -> <<" ", " ">> [] k = 5 -> <<"\n", " ", " ">>
                      [] k = 6 -> <<"\t">> [] k = 7 -> <<" ", "\n", "\n", " ">> [] OTHER -> <<>>)
      [] m = S1 -> (CASE k = 3 -> <<"\n">> [] k = 5 -> <<"\n", " ">> [] k = 4 -> <<" ", " ">> [] k = 6 -> <<" ", "\t">> [] OTHER -> <<" ">>)
      [] OTHER -> <<m>>
RECURSIVE Filled(_, _, _)
Filled(t, i, m) == IF i > Len(t) THEN <<>>
                   ELSE IF t[i] \in {NL, NB, SP, S1}
                   THEN MarkText(t[i], lay[1 + (m % Len(lay))]) \o Filled(t, i + 1, m + 1)
                   ELSE <<t[i]>> \o Filled(t, i + 1, m)
\* the kind of the line breaks, and the last one may be missing
WithBreaks(t) == LET b == Conf.br[br]
                 IN IF b = <<"\n">> THEN t ELSE Flat([i \in 1..Len(t) |-> IF t[i] = "\n" THEN b ELSE <<t[i]>>])
Last == docs[Len(docs)].root
Rendered == LET r == Stream(1)
                t == IF r # <<>> /\ lay[Len(lay)] \in {2, 5, 8} /\ r[Len(r)] = NL /\ ~IsBlock(Last) THEN SubSeq(r, 1, Len(r) - 1) ELSE r
                u == Filled(t, 1, 0)
            IN WithBreaks(u)

Case(d, cy, r) == PrintT(ToJson([k |-> "load", d |-> d, cy |-> cy, r |-> r]))
Wrong(d, cy, r, x) == PrintT("WRONG " \o ToJson([d |-> d, cy |-> cy, r |-> r, x |-> x])) /\ FALSE
Read == IF ~Complete THEN TRUE ELSE
    LET d  == Rendered
        a  == Load(d, FALSE)
        b  == Load(d, TRUE)
        D  == 1..Len(docs)
        xa == [i \in D |-> Substituted(docs[i].root, docs[i].anc)]
        xb == [i \in D |-> DataOf(docs[i].root)]
        xn == [i \in D |-> {<<docs[i].anc[k][1], DataOf(docs[i].anc[k][2])>> : k \in 1..Len(docs[i].anc)}]
        rn == [i \in D |-> {<<b.anc[i][k][1], Bare(b.anc[i][k][2])>> : k \in 1..Len(b.anc[i])}]
        cyc == \E i \in D : docs[i].anc # <<>>
    IN /\ IF Conf.alias = 2 THEN TRUE      \* not in the direct mode
          ELSE /\ (a.ok /\ [i \in 1..Len(a.docs) |-> Bare(a.docs[i])] = xa) \/ Wrong(d, FALSE, a, xa)
               /\ Case(d, FALSE, a)
       /\ cyc => /\ (b.ok /\ [i \in 1..Len(b.docs) |-> Bare(b.docs[i])] = xb /\ xn = rn) \/ Wrong(d, TRUE, b, xb)
                 /\ Case(d, TRUE, b)
=============================================================================
