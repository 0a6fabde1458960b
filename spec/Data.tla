-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* The YAML data model.                                                    *)
(*                                                                         *)
(* A value is [t, v]: "null" | "bool" | "int" | "float" | "str" | "alias"  *)
(* with v the text of the scalar, "seq" with v a sequence of nodes and     *)
(* "map" with v a sequence of <<key, value>> pairs in the iteration order. *)
(* A node is a value with a tag (<<>> if not specified), a position and    *)
(* the cell the value is in: nodes of one cell share the value.            *)
(***************************************************************************)
EXTENDS Text, TLC

Node(y, tag, p, c) == [t |-> y.t, v |-> y.v, tag |-> tag, p |-> p, c |-> c]
Val(t, v) == [t |-> t, v |-> v, c |-> 0]

(* The tag shown to the user: the core schema tag if not specified. *)
CorePrefix == << "t","a","g",":","y","a","m","l",".","o","r","g",",","2","0","0","2",":" >>
DefaultTag(t) ==
    CASE t = "null" -> CorePrefix \o <<"n","u","l","l">>
      [] t = "bool" -> CorePrefix \o <<"b","o","o","l">>
      [] t = "int"  -> CorePrefix \o <<"i","n","t">>
      [] t = "float" -> CorePrefix \o <<"f","l","o","a","t">>
      [] t = "str"  -> CorePrefix \o <<"s","t","r">>
      [] t = "seq"  -> CorePrefix \o <<"s","e","q">>
      [] t = "map"  -> CorePrefix \o <<"m","a","p">>
      [] OTHER -> <<>>
ShownTag(n) == IF n.tag = <<>> THEN DefaultTag(n.t) ELSE n.tag
RECURSIVE Shown(_)
Shown(n) ==      \* the node as the user sees it
    [t |-> n.t, p |-> n.p, tag |-> ShownTag(n),
     v |-> CASE n.t = "seq" -> [i \in 1..Len(n.v) |-> Shown(n.v[i])]
             [] n.t = "map" -> [i \in 1..Len(n.v) |-> <<Shown(n.v[i][1]), Shown(n.v[i][2])>>]
             [] OTHER -> n.v]

------------------------------------------------------------------------------
(* Numbers are compared by value: the canonical text of an integer. *)
StripZero(v) == IF \A i \in 1..Len(v) : v[i] = "0" THEN <<"0">>
                ELSE SubSeq(v, SkipIn(v, 1, {"0"}), Len(v))
RECURSIVE ToDec(_)
ToDec(n) == IF n < 10 THEN << HexDigits[n + 1] >>
            ELSE ToDec(n \div 10) \o << HexDigits[(n % 10) + 1] >>

I64Max == << "9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","7" >>
I64Min == << "9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","8" >>

RECURSIVE DecLeqAt(_, _, _)
DecLeqAt(a, b, i) == IF i > Len(a) THEN TRUE
                     ELSE IF a[i] = b[i] THEN DecLeqAt(a, b, i + 1)
                     ELSE HexTable[a[i]] < HexTable[b[i]]
DecLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE DecLeqAt(a, b, 1)

IsDec(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in Digit
Unsigned(s) == IF s # <<>> /\ s[1] \in {"-", "+"} THEN Tail(s) ELSE s
(* Digits of another base as a decimal text. *)
Digits(s, C) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in C
RECURSIVE TimesAdd(_, _, _, _)
\* d * m + c, from the last digit
TimesAdd(d, i, m, c) == IF i = 0 THEN (IF c = 0 THEN <<>> ELSE TimesAdd(d, 0, m, c \div 10) \o <<HexDigits[(c % 10) + 1]>>)
                        ELSE LET x == HexTable[d[i]] * m + c
                             IN TimesAdd(d, i - 1, m, x \div 10) \o <<HexDigits[(x % 10) + 1]>>
RECURSIVE Based(_, _, _, _)
Based(s, i, m, acc) == IF i > Len(s) THEN acc ELSE Based(s, i + 1, m, StripZero(TimesAdd(acc, Len(acc), m, HexTable[s[i]])))
\* the value of the text of an integer, <<>> if it is none
Decimal(s) ==
    LET u == Unsigned(s)
        z == IF Len(u) > 2 /\ u[1] = "0" /\ u[2] = "x" /\ Digits(SubSeq(u, 3, Len(u)), Hex) THEN Based(u, 3, 16, <<"0">>)
             ELSE IF Len(u) > 2 /\ u[1] = "0" /\ u[2] = "o" /\ Digits(SubSeq(u, 3, Len(u)), Octal) THEN Based(u, 3, 8, <<"0">>)
             ELSE IF IsDec(u) THEN StripZero(u) ELSE <<>>
    IN IF z # <<>> /\ s[1] = "-" /\ z # <<"0">> THEN <<"-">> \o z ELSE z
IsI64(s) == LET d == Decimal(s)
            IN d # <<>> /\ IF d[1] = "-" THEN DecLeq(Tail(d), I64Min) ELSE DecLeq(d, I64Max)

(* <<TRUE, value>> if the text is a 64-bit integer, otherwise the text itself. *)
IntKey(s) == IF IsI64(s) THEN <<TRUE, Decimal(s)>> ELSE <<FALSE, s>>

RECURSIVE SmallInt(_)
SmallInt(v) == IF v = <<>> THEN 0
               ELSE IF v[1] = "-" THEN 0 - SmallInt(Tail(v))
               ELSE IF v[1] = "+" THEN SmallInt(Tail(v))
               ELSE NumOf(v, 1, 10, 0)

(* Normal form of a decimal float: sign, significant digits and exponent. *)
FloatKey(s) ==
    IF s \in { <<"N","a","N">>, <<"i","n","f">>, <<"-","i","n","f">> } THEN <<s, <<>>, 0>>
    ELSE LET neg  == s[1] = "-"
             u    == Unsigned(s)
             ei   == SkipOut(u, 1, {"e", "E"})
             mant == SubSeq(u, 1, ei - 1)
             ex   == IF ei < Len(u) THEN SmallInt(SubSeq(u, ei + 1, Len(u))) ELSE 0
             di   == SkipOut(mant, 1, {"."})
             int  == SubSeq(mant, 1, di - 1)
             frac == SubSeq(mant, di + 1, Len(mant))
             digs == int \o frac
             lead == StripZero(digs)
             core == TrimEnd(lead, {"0"})
             e    == ex - Len(frac) + (Len(lead) - Len(core))
         IN IF core = <<>> \/ Len(core) + e < -324 THEN <<<<"0">>, <<>>, 0>>
            ELSE IF Len(core) + e > 309 THEN <<IF neg THEN <<"-","i","n","f">> ELSE <<"i","n","f">>, <<>>, 0>>
            ELSE <<IF neg THEN <<"-">> ELSE <<"+">>, core, e>>

------------------------------------------------------------------------------
(* Equality ignores the tag and the position. *)
RECURSIVE Same(_, _)
Same(a, b) ==
    /\ a.t = b.t
    /\ CASE a.t = "null" -> TRUE
         [] a.t = "int" -> IntKey(a.v) = IntKey(b.v)
         [] a.t = "float" -> FloatKey(a.v) = FloatKey(b.v)
         [] a.t = "seq" -> /\ Len(a.v) = Len(b.v)
                           /\ \A i \in 1..Len(a.v) : Same(a.v[i], b.v[i])
         [] a.t = "map" -> /\ Len(a.v) = Len(b.v)
                           /\ \A i \in 1..Len(a.v) : /\ Same(a.v[i][1], b.v[i][1])
                                                     /\ Same(a.v[i][2], b.v[i][2])
         [] OTHER -> a.v = b.v

RECURSIVE FindKey(_, _, _)
FindKey(m, k, i) == IF i > Len(m) THEN 0 ELSE IF Same(m[i][1], k) THEN i ELSE FindKey(m, k, i + 1)

(* A duplicated key takes the last value and moves to the end. *)
Insert(m, k, v) ==
    LET i == FindKey(m, k, 1)
    IN IF i = 0 THEN Append(m, <<k, v>>)
       ELSE Append(SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m)), <<m[i][1], v>>)
RECURSIVE InsertAll(_, _, _)
InsertAll(m, v, i) == IF i > Len(v) THEN m ELSE InsertAll(Insert(m, v[i][1], v[i][2]), v, i + 1)
OwnTag(x) == IF x.tag = DefaultTag(x.t) THEN <<>> ELSE x.tag
RECURSIVE DataOf(_)
DataOf(x) ==      \* the aliases are kept
    LET v == CASE x.t = "seq" -> TLCEval([i \in 1..Len(x.v) |-> DataOf(x.v[i])])
               [] x.t = "map" -> InsertAll(<<>>, TLCEval([i \in 1..Len(x.v) |-> <<DataOf(x.v[i][1]), DataOf(x.v[i][2])>>]), 1)
               [] OTHER -> x.v
    IN [t |-> x.t, v |-> v, tag |-> OwnTag(x)]
\* no equal keys
RECURSIVE Unique(_)
Unique(x) == CASE x.t = "seq" -> [x EXCEPT !.v = TLCEval([i \in 1..Len(x.v) |-> Unique(x.v[i])])]
               [] x.t = "map" -> [x EXCEPT !.v = InsertAll(<<>>, TLCEval([i \in 1..Len(x.v) |-> <<Unique(x.v[i][1]), Unique(x.v[i][2])>>]), 1)]
               [] OTHER -> x
=============================================================================
