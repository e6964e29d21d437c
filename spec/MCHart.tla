------------------------------ MODULE MCHart --------------------------------
(* Pairing as a machine: edges are added, matched and cleaned in any order.    *)
EXTENDS Hart, Json
CONSTANTS Sizes, Edges, Steps
VARIABLES st, raw, hist
Val(e) == IF e > 5000 THEN 5000 - e ELSE e        \* negative edges as 5000 + size
Init == \E z \in Sizes : raw = <<1, z, 10, 100, 100, 1>> /\ st = InitSt(raw) /\ hist = <<>>
Do(op, a) == LET r == Apply(st, [op |-> op, a |-> a])
             IN st' = r.st /\ hist' = Append(hist, [op |-> op, a |-> a, res |-> r.res]) /\ UNCHANGED raw
Add == \E e \in Edges : Do("add", <<Val(e)>>)
MatchStep == Do("match", <<>>)
CleanStep == Do("clean", <<>>)
LastOp == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
Next == Len(hist) < Steps /\ (Add \/ (LastOp = "add" /\ MatchStep) \/ (LastOp = "match" /\ CleanStep))
\* no edge in two pairs, the rising one first, within tolerance
EdgeOf(id) == LET adds == SelectSeq(hist, LAMBDA h : h.op = "add") IN adds[id].a[1]
AtMostOnce == \A i, j \in 1..Len(st.pairs) : i # j => {st.pairs[i][1], st.pairs[i][2]} \cap {st.pairs[j][1], st.pairs[j][2]} = {}
RiseFirst == \A i \in 1..Len(st.pairs) : LET p == st.pairs[i] m == Max2(Abs(EdgeOf(p[1])), Abs(EdgeOf(p[2]))) IN
   p[1] < p[2] /\ EdgeOf(p[1]) > 0
   /\ IF m < 100 THEN Abs(EdgeOf(p[1]) + EdgeOf(p[2])) < 10 ELSE 10 * Abs(EdgeOf(p[1]) + EdgeOf(p[2])) < m
Bounded == Len(st.buf) <= st.size
\* after matching, no two edges left in memory could have been paired
Exhausted == LastOp = "match" => \A i, j \in 1..Len(st.buf) : i < j => ~Fits(st, st.buf[i], st.buf[j])
\* memory keeps the most recent edges in order of arrival
InOrder == \A i, j \in 1..Len(st.buf) : i < j => st.buf[i].id < st.buf[j].id
Emit == Len(hist) = Steps => PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>]>> \o hist))
=============================================================================
