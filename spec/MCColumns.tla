----------------------------- MODULE MCColumns -----------------------------
EXTENDS Columns, Json
CONSTANTS Universe
VARIABLES st, job
Init == st \in (SUBSET Universe \ {{}}) /\ job = <<>>
QReqs == {<<>>, <<1>>, <<2>>, <<4>>, <<5>>, <<1, 2>>, <<1, 4>>, <<4, 5>>, <<8>>, <<1, 8>>}
AReqs == {<<>>, <<1>>, <<2>>, <<3>>, <<9>>, <<1, 2>>, <<2, 3>>, <<1, 2, 3>>, <<8>>, <<1, 8>>}
AskLoad == \E q \in QReqs, x \in AReqs : job' = <<"load", <<Len(q)>> \o q \o x>>
AskColumns == \E c, d \in Universe, q \in {0, 1}, x \in {0, 1, 9} :
                job' = <<"columns", <<q, x>> \o (IF c = d THEN <<c>> ELSE <<c, d>>)>>
AskAC == \E q \in QReqs \ {<<>>} : job' = <<"actypes", q>>
AskOther == \E o \in {"quantities", "available"} : job' = <<o, <<>>>>
AskBest == \E s \in SUBSET {1, 2, 3}, m \in SUBSET {1, 2, 3} :
             job' = <<"best", <<Cardinality(s)>> \o SortedSeq(s) \o SortedSeq(m)>>
Next == job = <<>> /\ UNCHANGED st /\ (AskLoad \/ AskColumns \/ AskAC \/ AskOther \/ AskBest)
Res == Apply(st, [op |-> job[1], a |-> job[2]]).res
NeverSomethingElse == (job # <<>> /\ job[1] \in {"load", "columns"} /\ ~IsExc(Res)) =>
   /\ Range(Res) \subseteq st /\ Res # <<>>
   /\ job[1] = "columns" => Range(Res) = Range(SubSeq(job[2], 3, Len(job[2])))
   /\ (job[1] = "load" /\ job[2] # <<0>>) =>
        LET n == job[2][1] qs == Range(SubSeq(job[2], 2, n + 1)) acs == Range(SubSeq(job[2], n + 2, Len(job[2])))
        IN \A c \in Range(Res) : (qs = {} \/ Q(c) \in qs) /\ (acs = {} \/ acs = {Best} \/ AC(c) \in acs)
OneBestPerQuantity == (job # <<>> /\ job[1] = "load" /\ ~IsExc(Res) /\ job[2][Len(job[2])] = Best /\ Len(job[2]) > 1 + job[2][1]) =>
   \A c, d \in Range(Res) : Q(c) = Q(d) => c = d
Emit == job # <<>> => PrintT(ToJson(<<[op |-> "begin", a |-> SortedSeq(st), res |-> <<>>], [op |-> job[1], a |-> job[2], res |-> Res]>>))
===========================================================================
