----------------------------- MODULE MCEstimates -----------------------------
(* Disaggregation piece by piece: the sections are taken in turn, pieces that  *)
(* are too short are skipped, every other one is written to the output.        *)
EXTENDS Estimates, Json
CONSTANTS MaxT, Periods, Mins
VARIABLES raw, st, todo, out, job
vars == <<raw, st, todo, out, job>>
Rep == <<0, 48, 132, 60, 108, 36>>
TwoModels == <<4, 1, 2, 2, 0, 50, 2, 2, 1, 3, 3, 0, 49, 110>>
ModelLists == {<<1, 3, 0, 2, 0, 50>>, <<2>> \o TwoModels}
Init == \E ts \in SUBSET (0..MaxT), kind \in {1, 2}, ml \in ModelLists, mx \in {1, 2} :
          LET s == SortedSeq(ts) IN
          /\ Len(s) >= 2
          /\ raw = <<kind, mx, 20, 30, Len(s)>> \o Flat([i \in 1..Len(s) |-> <<s[i], Rep[(s[i] % 6) + 1]>>]) \o ml
          /\ st = InitSt(raw) /\ todo = <<>> /\ out = <<>> /\ job = <<>>
\* choose what to read
Cuts == {<<>>, <<0, MaxT + 1>>, <<1, 3, 3, MaxT>>, <<0, 2, 3, MaxT + 1>>, <<-1, 1, 2, MaxT + 2>>}
Ask == job = <<>> /\ \E p \in Periods, m \in Mins, cs \in Cuts :
         /\ job' = <<p, m>> \o cs
         /\ todo' = IF cs = <<>> THEN GoodSecs(st) ELSE SecsOf(cs)
         /\ UNCHANGED <<raw, st, out>>
\* take the next section
Take == todo # <<>> /\ todo' = Tail(todo) /\ out' = out \o Runs(st, <<Head(todo)>>, job[1], job[2])
        /\ UNCHANGED <<raw, st, job>>
Next == Ask \/ Take
Done == job # <<>> /\ todo = <<>>

\* piece by piece is the same as all at once
SameAsWhole == Done => out = Apply(st, [op |-> "run", a |-> job]).st.ps
\* no short piece, and every piece within its section
NoShort == \A k \in 1..Len(out) : Len(out[k].rows) >= job[2] /\ out[k].s <= out[k].e
Within == \A k \in 1..Len(out) : \A i \in 1..Len(out[k].rows) :
            LET t == out[k].rows[i][1] IN out[k].s < t + job[1] /\ t <= out[k].e
\* pieces in time order: the declared frame covers all
Covered == Done /\ out # <<>> => \A k \in 1..Len(out) : out[1].s <= out[k].s /\ out[k].e <= out[Len(out)].e
\* at the meter's own pace every known reading of a kept piece is stored unchanged
Unchanged == Done /\ job[1] = 1 => \A k \in 1..Len(out) : \A i \in 1..Len(out[k].rows) :
               \E j \in 1..Len(st.tab) : st.tab[j][2] = out[k].rows[i][2] \/ out[k].rows[i][2] = NaN
\* all off is always possible: the estimates never miss the mains by more than the mains itself
OffPossible == \A k \in 1..Len(out) : \A i \in 1..Len(out[k].rows) :
                 LET v == out[k].rows[i][2] IN v # NaN => CO!Best(ModelSeq(st), v) <= v
Emit == Done => PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>],
   [op |-> "run", a |-> job, res |-> Apply(st, [op |-> "run", a |-> job]).res],
   [op |-> "estimates", a |-> <<>>, res |-> <<>>],
   [op |-> "metadata", a |-> <<>>, res |-> <<>>]>>))
==============================================================================
