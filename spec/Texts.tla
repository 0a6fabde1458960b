-------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* Texts typed by a user, token by token.  Every reachable text, put in    *)
(* every frame (a prefix and a suffix), is read by the Reader; the reading *)
(* is checked to be well formed and is printed as a conformance case.      *)
(*                                                                         *)
(* The tokens and the frames come from the file named by CONF:             *)
(*   alpha   tokens, depth   number of tokens, frames  <<prefix, suffix>>  *)
(*           or <<prefix, middle, suffix>> with the text in both gaps      *)
(*   emit    the least number of tokens of a printed case                  *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils

Conf   == JsonDeserialize(IOEnv.CONF)
Alpha  == Conf.alpha
Frames == Conf.frames

VARIABLES n, text, frame
vars == <<n, text, frame>>

Init == n = 0 /\ text = <<>> /\ frame \in 1..Len(Frames)
Type(t) == /\ n < Conf.depth
           /\ n' = n + 1
           /\ text' = text \o Alpha[t]
           /\ UNCHANGED frame
Next == \E t \in 1..Len(Alpha) : Type(t)
Spec == Init /\ [][Next]_vars

Whole == LET f == Frames[frame]
         IN f[1] \o text \o f[2] \o (IF Len(f) > 2 THEN text \o f[3] ELSE <<>>)

(* The reading of any text is well formed. *)
RECURSIVE PosOk(_, _)
PosOk(x, len) == /\ x.p \in 0..len
                 /\ x.t = "seq" => \A i \in 1..Len(x.v) : PosOk(x.v[i], len)
                 /\ x.t = "map" => \A i \in 1..Len(x.v) : PosOk(x.v[i][1], len) /\ PosOk(x.v[i][2], len)
RECURSIVE Keys(_)
Keys(x) ==      \* no equal keys
    /\ x.t = "seq" => \A i \in 1..Len(x.v) : Keys(x.v[i])
    /\ x.t = "map" => /\ \A i \in 1..Len(x.v) : Keys(x.v[i][1]) /\ Keys(x.v[i][2])
                      /\ \A i, j \in 1..Len(x.v) : i < j => ~Same(x.v[i][1], x.v[j][1])
RECURSIVE HasAlias(_)
HasAlias(x) == \/ x.t = "alias"
               \/ x.t = "seq" /\ \E i \in 1..Len(x.v) : HasAlias(x.v[i])
               \/ x.t = "map" /\ \E i \in 1..Len(x.v) : HasAlias(x.v[i][1]) \/ HasAlias(x.v[i][2])
WellFormed(d, r, cy) ==
    IF r.ok THEN /\ Len(r.docs) >= 1 /\ Len(r.anc) = Len(r.docs)
                 /\ \A i \in 1..Len(r.docs) : /\ PosOk(r.docs[i], Len(d)) /\ Keys(r.docs[i])
                                              /\ ~cy => ~HasAlias(r.docs[i])
    ELSE r.p \in 0..Len(d)

(* Without an alias both modes are the same. *)
ModesAgree(a, b) == IF a.ok /\ b.ok /\ \A i \in 1..Len(b.docs) : ~HasAlias(b.docs[i]) THEN a = b ELSE TRUE

Case(d, cy, r) == PrintT(ToJson([k |-> "load", d |-> d, cy |-> cy, r |-> r]))

Read == LET d == Whole
            a == Load(d, FALSE)
            b == Load(d, TRUE)
        IN /\ WellFormed(d, a, FALSE)
           /\ IF \E i \in 1..Len(d) : d[i] \in {"&", "*"}
              THEN /\ WellFormed(d, b, TRUE) /\ ModesAgree(a, b)
                   /\ n >= Conf.emit => Case(d, FALSE, a) /\ Case(d, TRUE, b)
              ELSE n >= Conf.emit => Case(d, FALSE, a)
=============================================================================
