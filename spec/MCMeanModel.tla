---------------------------- MODULE MCMeanModel -----------------------------
EXTENDS MeanModel, Json
CONSTANTS Steps
VARIABLES st, hist, seen
vars == <<st, hist, seen>>
\* seen: per appliance all readings the current model was trained on (ghost); kept for the folders too
Init == st = InitSt(<<>>) /\ hist = <<>> /\ seen = [cur |-> <<>>, disk |-> [k \in Slots |-> <<>>]]
Pieces == {<<1, 2, 10, 15>>, <<1, 1, 3>>, <<2, 3, 4, NaN, 8>>, <<2, 1, 7, 1, 2, 0, 1>>, <<1, 1, NaN>>}
RECURSIVE Pairs(_)
Pairs(a) == IF a = <<>> THEN <<>>
            ELSE [i \in 1..Len(Real(SubSeq(a, 3, 2 + a[2]))) |-> <<a[1], Real(SubSeq(a, 3, 2 + a[2]))[i]>>] \o Pairs(SubSeq(a, 3 + a[2], Len(a)))
Do(op, a) == LET r == Apply(st, [op |-> op, a |-> a])
             IN st' = r.st /\ hist' = Append(hist, [op |-> op, a |-> a, res |-> r.res])
FitStep == \E p \in Pieces : /\ Do("fit", p)
     /\ seen' = [cur |-> seen.cur \o Pairs(p),
                 disk |-> IF st.auto = 0 THEN seen.disk ELSE [seen.disk EXCEPT ![st.auto] = seen.cur \o Pairs(p)]]
PredictStep == Do("predict", <<2, 0>>) /\ UNCHANGED seen
SaveStep == Do("save", <<1>>) /\ seen' = [seen EXCEPT !.disk[1] = seen.cur]
LoadStep == \E k \in Slots : Do("load", <<k>>) /\ seen' = IF st.saved[k] THEN [seen EXCEPT !.cur = seen.disk[k]] ELSE seen
NewStep == \E k \in {0, 1}, w \in {0, 2} : Do("new", <<k, w>>) /\
     seen' = IF k = 0 THEN [seen EXCEPT !.cur = <<>>] ELSE IF st.saved[k] THEN [seen EXCEPT !.cur = seen.disk[k]] ELSE seen
Next == Len(hist) < Steps /\ (FitStep \/ (hist # <<>> /\ (PredictStep \/ SaveStep \/ LoadStep \/ NewStep)))
\* the model holds exactly the sum and number of all readings it was trained on
Exact == \A k \in 1..Len(st.m) :
   LET mine == SelectSeq(seen.cur, LAMBDA x : x[1] = st.m[k].id) IN
   st.m[k].n = Len(mine) /\ st.m[k].s = SumSeq([i \in 1..Len(mine) |-> mine[i][2]])
Known == \A i \in 1..Len(seen.cur) : \E k \in 1..Len(st.m) : st.m[k].id = seen.cur[i][1]
Emit == Len(hist) = Steps => PrintT(ToJson(<<[op |-> "begin", a |-> <<>>, res |-> <<>>]>> \o hist
             \o <<[op |-> "predict", a |-> <<1, 3>>, res |-> Apply(st, [op |-> "predict", a |-> <<1, 3>>]).res]>>))
=============================================================================
