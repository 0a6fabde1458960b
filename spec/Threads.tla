-------------------------------- MODULE Threads -----------------------------
(***************************************************************************)
(* Threads that read, clone, replace and drop their handles of shared data *)
(* at the same time.  The data are counted; TLC explores the interleavings *)
(* of all the programs and every thread sees what it sees alone.           *)
(*   threads, len  the number of the threads and of their operations       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
T == 1..Conf.threads
VARIABLES count,     \* the handles of each cell, cell 1 is shared at the start
          mine,      \* the cells of the handles of each thread
          seen,      \* what each thread has read
          prog       \* what each thread has done
vars == <<count, mine, seen, prog>>
Init == /\ count = <<Conf.threads + 1>>         \* the main thread keeps its handle
        /\ mine = [t \in T |-> <<1>>]
        /\ seen = [t \in T |-> <<>>] /\ prog = [t \in T |-> <<>>]
Do(t, o) == prog' = [prog EXCEPT ![t] = Append(@, o)]
H(t) == 1..Len(mine[t])
Kept(t) == UNCHANGED seen
Clone(t) == \E i \in H(t) : /\ Len(mine[t]) < 3
                            /\ mine' = [mine EXCEPT ![t] = Append(@, mine[t][i])]
                            /\ count' = [count EXCEPT ![mine[t][i]] = @ + 1]
                            /\ Do(t, <<"clone", i>>) /\ Kept(t)
DropH(t) == \E i \in H(t) : /\ Len(mine[t]) > 1
                            /\ mine' = [mine EXCEPT ![t] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
                            /\ count' = [count EXCEPT ![mine[t][i]] = @ - 1]
                            /\ Do(t, <<"drop", i>>) /\ Kept(t)
\* a cell of the thread: the value is the number of the thread and of the step
Set(t) == \E i \in H(t) : /\ mine' = [mine EXCEPT ![t][i] = Len(count) + 1]
                          /\ count' = Append([count EXCEPT ![mine[t][i]] = @ - 1], 1)
                          /\ Do(t, <<"set", i>>) /\ Kept(t)
\* the shared value or one of the own values
Read(t) == \E i \in H(t) : /\ seen' = [seen EXCEPT ![t] = Append(@, mine[t][i] = 1)]
                           /\ Do(t, <<"read", i>>) /\ UNCHANGED <<count, mine>>
Next == \E t \in T : Len(prog[t]) < Conf.len /\ (Clone(t) \/ DropH(t) \/ Set(t) \/ Read(t))

Refs(c) == Cardinality({<<t, i>> \in {<<t, i>> : t \in T, i \in 1..3} : i <= Len(mine[t]) /\ mine[t][i] = c}) + (IF c = 1 THEN 1 ELSE 0)
Counted == \A c \in 1..Len(count) : count[c] = Refs(c)
Alive == \A t \in T : \A i \in H(t) : count[mine[t][i]] > 0
\* what a thread sees alone
RECURSIVE Alone(_, _, _)
Alone(p, m, i) ==
    IF i > Len(p) THEN <<>>
    ELSE LET o == p[i][1]  k == p[i][2]
         IN CASE o = "clone" -> Alone(p, Append(m, m[k]), i + 1)
              [] o = "drop" -> Alone(p, SubSeq(m, 1, k - 1) \o SubSeq(m, k + 1, Len(m)), i + 1)
              [] o = "set" -> Alone(p, [m EXCEPT ![k] = FALSE], i + 1)
              [] OTHER -> <<m[k]>> \o Alone(p, m, i + 1)
Confluent == \A t \in T : seen[t] = Alone(prog[t], <<TRUE>>, 1)
Done == \A t \in T : Len(prog[t]) = Conf.len
Emit == Done => PrintT(ToJson([k |-> "threads", prog |-> prog, seen |-> seen, main |-> count[1]]))
=============================================================================
