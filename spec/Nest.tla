-------------------------------- MODULE Nest --------------------------------
(***************************************************************************)
(* Texts that repeat a piece any number of times: deep nestings around the *)
(* limit of the nesting level, long words, wide indentations, many items.  *)
(* conf.patterns are <<first, open, core, close, last>>, the second and    *)
(* fourth are repeated from conf.from to conf.to times.  The character 1   *)
(* stands for the number of the repetition.                                *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
VARIABLES k, pat
Init == pat \in 1..Len(Conf.patterns) /\ k = 0
Deepen == k < Conf.to /\ k' = (IF k = 0 THEN Conf.from ELSE k + Conf.step) /\ UNCHANGED pat
Next == Deepen

RECURSIVE Repeat(_, _)
Repeat(w, m) == IF m = 0 THEN <<>> ELSE IF m = 1 THEN w
                ELSE LET h == Repeat(w, m \div 2)
                     IN h \o h \o (IF m % 2 = 1 THEN w ELSE <<>>)
RECURSIVE IndexDigits(_)
IndexDigits(m) == (IF m >= 10 THEN IndexDigits(m \div 10) ELSE <<>>) \o <<SubSeq("0123456789", (m % 10) + 1, (m % 10) + 1)>>
Mark == Conf.mark[1]
Marked(w) == \E i \in 1..Len(w) : w[i] = Mark
RECURSIVE Numbered(_, _)
Numbered(w, m) == IF w = <<>> THEN <<>> ELSE (IF w[1] = Mark THEN IndexDigits(m) ELSE <<w[1]>>) \o Numbered(Tail(w), m)
RECURSIVE Counted(_, _)
Counted(w, m) == IF m = 0 THEN <<>> ELSE Counted(w, m - 1) \o Numbered(w, m)
Times(w, m) == IF Marked(w) THEN Counted(w, m) ELSE Repeat(w, m)

P == Conf.patterns[pat]
Text1 == P[1] \o Times(P[2], k) \o P[3] \o Times(P[4], k) \o P[5]

RECURSIVE Depth(_)
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
Depth(x) == CASE x.t = "seq" /\ x.v # <<>> -> 1 + MaxOf({Depth(x.v[i]) : i \in 1..Len(x.v)})
              [] x.t = "map" /\ x.v # <<>> ->
                    1 + MaxOf({Depth(x.v[i][1]) : i \in 1..Len(x.v)} \cup {Depth(x.v[i][2]) : i \in 1..Len(x.v)})
              [] OTHER -> 0

(* The nesting never exceeds the limit, and only the deep nesting is refused for it. *)
Limited(r) == /\ r.ok => \A i \in 1..Len(r.docs) : Depth(r.docs[i]) <= MaxLevel
              /\ ~r.ok /\ r.err = "nesting level" => k > MaxLevel \div 4
Read == IF k = 0 THEN TRUE ELSE
    LET d == Text1  r == Load(d, FALSE)
    IN /\ Limited(r)
       /\ PrintT(ToJson([k |-> "load", d |-> d, cy |-> FALSE, r |-> r]))
       /\ IF \E i \in 1..Len(d) : d[i] \in {"&", "*"}
          THEN PrintT(ToJson([k |-> "load", d |-> d, cy |-> TRUE, r |-> Load(d, TRUE)])) ELSE TRUE
=============================================================================
