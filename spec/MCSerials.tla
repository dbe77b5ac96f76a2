------------------------------ MODULE MCSerials ------------------------------
(* Serials: a counter of a few values, from which several threads take.  A    *)
(* taking is one step, however many threads take (Atomic = FALSE shows that    *)
(* it has to be).                                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Size, MaxTaken, Atomic
VARIABLES next, read, taken
vars == <<next, read, taken>>
None == Size
After(c) == IF c + 1 = Size THEN 0 ELSE c + 1
NonZero(c) == IF c = 0 THEN 1 ELSE c
Init == next \in 0..(Size - 1) /\ read = [t \in Threads |-> None] /\ taken = <<>>
Take(t) == /\ Len(taken) < MaxTaken
           /\ IF Atomic
              THEN taken' = Append(taken, NonZero(next)) /\ next' = After(NonZero(next)) /\ UNCHANGED read
              ELSE \/ read[t] = None /\ read' = [read EXCEPT ![t] = NonZero(next)] /\ UNCHANGED <<next, taken>>
                   \/ read[t] # None /\ taken' = Append(taken, read[t]) /\ next' = After(read[t]) /\ read' = [read EXCEPT ![t] = None]
Next == \E t \in Threads : Take(t)
Spec == Init /\ [][Next]_vars
NeverZero == \A i \in 1..Len(taken) : taken[i] # 0
\* Size - 1 serials can be told apart.
Different == \A i, j \in 1..Len(taken) : i < j /\ j - i < Size - 1 => taken[i] # taken[j]
Guarantees == NeverZero /\ Different
=============================================================================
