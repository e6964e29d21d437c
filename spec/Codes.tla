------------------------------ MODULE Codes ------------------------------
(* Vocabulary shared by every module of the specification.               *)
(* Observations are flat sequences of integers, so that a recorded one    *)
(* and a specified one can always be compared.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Exc       == -77777777        \* first element of an observation that is an exception
ValueErr  == <<Exc, 1>>
KeyErr    == <<Exc, 2>>
OtherErr  == <<Exc, 9>>
IsExc(r)  == Len(r) > 0 /\ r[1] = Exc

NegInf == -1000000            \* an absent start
PosInf ==  1000000            \* an absent end
NaN    == -55555555           \* a missing reading

R(st, res) == [st |-> st, res |-> res]   \* next state and observation
B(b) == IF b THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>}
                  ELSE SeqsUpTo(S, n - 1) \cup {Append(s, x) : s \in {t \in SeqsUpTo(S, n - 1) : Len(t) = n - 1}, x \in S}

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == SetMin(S) IN <<m>> \o SortedSeq(S \ {m})
===========================================================================
