-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Characters and texts.                                                   *)
(*                                                                         *)
(* A text is a sequence of characters.  A character is a one-letter TLA+   *)
(* string, or a string of the form "U+XXXX" for the characters that TLA+   *)
(* cannot spell (the conformance driver expands it).  Positions in a text  *)
(* count characters from 0; the driver converts them to byte offsets.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

NLs    == {"\n", "\r"}
Blank  == {" ", "\t", "\f"}              \* ASCII white space without line breaks
AnyWs  == Blank \cup NLs
Digit  == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Octal  == Digit \ {"8", "9"}
HexLow == {"a", "b", "c", "d", "e", "f"}
HexUp  == {"A", "B", "C", "D", "E", "F"}
Hex    == Digit \cup HexLow \cup HexUp
Lower  == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
           "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper  == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
           "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Alnum  == Digit \cup Lower \cup Upper
Ident  == Alnum \cup {"-"}
FlowInd == {"{", "}", "[", "]", ","}
BoundSet == {":", "{", "}", "[", "]", " ", ",", "\t", "\n", "\r"}
SpTab  == {" ", "\t"}
WsNl   == {" ", "\t", "\n", "\r"}

(* Printable ASCII in code order, from U+0020 to U+007E. *)
Ascii == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
            "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
            "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
            "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
            "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
            "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>

HexDigits == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F" >>
HexTable  == [ c \in Hex |->
    CASE c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
      [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15
      [] OTHER -> (CHOOSE i \in 1..10 : HexDigits[i] = c) - 1 ]

RECURSIVE HexStr(_, _)
HexStr(n, w) == IF n = 0 /\ w <= 0 THEN ""
                ELSE HexStr(n \div 16, w - 1) \o HexDigits[(n % 16) + 1]

(* The character with the code point n. *)
Chr(n) == CASE n \in 32..126 -> Ascii[n - 31]
            [] n = 9  -> "\t" [] n = 10 -> "\n" [] n = 12 -> "\f" [] n = 13 -> "\r"
            [] OTHER -> "U+" \o HexStr(n, 4)

At(d, i) == IF i <= Len(d) THEN d[i] ELSE ""       \* "" is the end of the text
Cut(d, i, j) == SubSeq(d, i, j - 1)                 \* characters i .. j-1

RECURSIVE SkipIn(_, _, _)
SkipIn(d, i, C) == IF i <= Len(d) /\ d[i] \in C THEN SkipIn(d, i + 1, C) ELSE i
RECURSIVE SkipOut(_, _, _)
SkipOut(d, i, C) == IF i <= Len(d) /\ d[i] \notin C THEN SkipOut(d, i + 1, C) ELSE i

RECURSIVE TrimEnd(_, _)
TrimEnd(v, C) == IF v # <<>> /\ v[Len(v)] \in C THEN TrimEnd(SubSeq(v, 1, Len(v) - 1), C) ELSE v
TrimStart(v, C) == SubSeq(v, SkipIn(v, 1, C), Len(v))

StartsWith(v, w) == Len(v) >= Len(w) /\ SubSeq(v, 1, Len(w)) = w
EndsWith(v, w) == Len(v) >= Len(w) /\ SubSeq(v, Len(v) - Len(w) + 1, Len(v)) = w
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN <<>> ELSE <<c>> \o Rep(c, n - 1)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE HexNum(_, _, _)
HexNum(v, i, acc) == IF i > Len(v) THEN acc ELSE HexNum(v, i + 1, acc * 16 + HexTable[v[i]])
RECURSIVE NumOf(_, _, _, _)
NumOf(v, i, base, acc) ==
    IF i > Len(v) THEN acc ELSE NumOf(v, i + 1, base, acc * base + HexTable[v[i]])
=============================================================================
